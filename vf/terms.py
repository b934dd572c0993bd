"""Symbolic terms produced by the executor (hash-consed DAG).

Sorts: 'd' double, 's' float, 'x' long double, or an int n = bit-vector of n bits (n == 1: condition).
"""
import ctypes
import math
import struct

_table = {}


class Node:
    __slots__ = ("op", "args", "sort", "id", "cells", "isconst", "__weakref__")

    def __repr__(self):
        return show(self)


def size_of_sort(sort):
    if sort == "d":
        return 8
    if sort == "s":
        return 4
    if sort == "x":
        return 16
    return (sort + 7) // 8


def mk(op, args, sort):
    key = (op, sort) + tuple((a.id, "n") if isinstance(a, Node) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.sort = sort
        n.id = len(_table)
        n.cells = None
        n.isconst = op != "var" and op != "undef" and all(not isinstance(a, Node) or a.isconst for a in args)
        _table[key] = n
    return n


def cells(n):
    c = n.cells
    if c is None:
        c = n.cells = [(n, k) for k in range(size_of_sort(n.sort))]
    return c


def d2bits(v):
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def bits2d(b):
    return struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]


def s2bits(v):
    return struct.unpack("<I", struct.pack("<f", v))[0]


def bits2s(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0]


def fconst(v, sort="d"):
    """v: python float (value of the constant in its own format)."""
    if sort == "d":
        return mk("const", (d2bits(v),), "d")
    if sort == "s":
        return mk("const", (s2bits(v),), "s")
    return mk("const", (d2bits(v),), "x")


def constval(n):
    if n.sort == "s":
        return bits2s(n.args[0])
    return bits2d(n.args[0])


def fvar(name, sort="d"):
    return mk("var", (name,), sort)


def bvar(name, width):
    return mk("var", (name,), width)


# ---------------------------------------------------------------- IEEE evaluation of constant / ground terms

_libm = ctypes.CDLL("libm.so.6")


def _fn(name, nargs):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * nargs
    return f


_libcache = {}


def libm(name, args):
    k = (name, len(args))
    if k not in _libcache:
        _libcache[k] = _fn(name, len(args))
    return _libcache[k](*args)


def _div(a, b):
    if b == 0:
        if a == 0 or a != a or b != b:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def _mul(a, b):
    return a * b


def f32(v):
    if v != v or math.isinf(v):
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def hypot3(x, y, z):
    # as libstdc++'s std::__hypot3
    x, y, z = abs(x), abs(y), abs(z)
    a = (z if y < z else y) if x < y else (z if x < z else x)
    if a:
        return a * libm("sqrt", [_div(x, a) * _div(x, a) + _div(y, a) * _div(y, a) + _div(z, a) * _div(z, a)])
    return 0.0


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def fcmp_eval(pred, a, b):
    uno = a != a or b != b
    if pred == "uno":
        return uno
    if pred == "ord":
        return not uno
    if pred == "true":
        return True
    if pred == "false":
        return False
    base = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": (a < b or a > b)}[pred[1:]]
    if pred[0] == "o":
        return base and not uno
    return uno or base


def icmp_eval(pred, a, b, n):
    if pred[0] == "s":
        a, b = sgn(a, n), sgn(b, n)
    return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[-2:]]


class EvalError(Exception):
    pass


def evaluate(node, env, memo=None):
    """IEEE double evaluation of a term: env maps variable names to floats / ints."""
    if memo is None:
        memo = {}
    stack = [node]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Node) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[n.id] = _ev1(n, [memo[a.id] if isinstance(a, Node) else a for a in n.args], env)
    return memo[node.id]


def _ev1(n, a, env):
    op = n.op
    if op == "const":
        return constval(n)
    if op == "var":
        if n.args[0] not in env:
            raise EvalError("no value for " + str(n.args[0]))
        return env[n.args[0]]
    if op == "undef":
        raise EvalError("undef")
    rnd = f32 if n.sort == "s" else (lambda v: v)
    if op == "fadd":
        return rnd(a[0] + a[1])
    if op == "fsub":
        return rnd(a[0] - a[1])
    if op == "fmul":
        return rnd(_mul(a[0], a[1]))
    if op == "fdiv":
        return rnd(_div(a[0], a[1]))
    if op == "fneg":
        return -a[0]
    if op == "call":
        name = a[0]
        if name == "hypot3":
            return hypot3(*a[1:])
        if name == "nearest32":
            return f32(a[1])
        try:
            return rnd(libm(name, a[1:]))
        except AttributeError:
            raise EvalError("libm " + name)
    if op == "fpext":
        return a[0]
    if op == "fptrunc":
        return f32(a[0]) if n.sort == "s" else a[0]
    if op == "sitofp":
        return rnd(float(sgn(a[0], n.args[0].sort if isinstance(n.args[0], Node) else n.args[1])))
    if op == "uitofp":
        return rnd(float(a[0]))
    if op == "frombits":
        return bits2d(a[0]) if n.sort == "d" else bits2s(a[0])
    if op == "tobits":
        return d2bits(a[0]) if n.sort == 64 else s2bits(a[0])
    if op == "ite":
        return a[1] if a[0] else a[2]
    w = n.sort
    m = (1 << w) - 1 if isinstance(w, int) else 0
    if op in ("fptosi", "fptoui"):
        v = a[0]
        if v != v or math.isinf(v):
            return 1 << (w - 1)
        return int(v) & m
    if op == "fcmp":
        return int(fcmp_eval(a[0], a[1], a[2]))
    if op == "icmp":
        aw = next(x.sort for x in n.args[1:] if isinstance(x, Node))
        return int(icmp_eval(a[0], a[1], a[2], aw))
    if op == "add":
        return (a[0] + a[1]) & m
    if op == "sub":
        return (a[0] - a[1]) & m
    if op == "mul":
        return (a[0] * a[1]) & m
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "shl":
        return (a[0] << a[1]) & m if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return (sgn(a[0], w) >> min(a[1], w - 1)) & m
    if op in ("sdiv", "srem"):
        x, y = sgn(a[0], w), sgn(a[1], w)
        if y == 0:
            raise EvalError("division by zero")
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & m
    if op == "udiv":
        return a[0] // a[1]
    if op == "urem":
        return a[0] % a[1]
    if op == "zext":
        return a[0]
    if op == "sext":
        return sgn(a[0], n.args[0].sort) & m
    if op == "trunc":
        return a[0] & m
    raise EvalError("op " + op)


def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "const":
        return repr(constval(n))
    if n.op == "var":
        return str(n.args[0])
    if depth == 0:
        return "..."
    infix = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}
    if n.op in infix:
        return "(%s %s %s)" % (show(n.args[0], depth - 1), infix[n.op], show(n.args[1], depth - 1))
    if n.op == "call":
        return "%s(%s)" % (n.args[0], ", ".join(show(a, depth - 1) for a in n.args[1:]))
    return "%s(%s)" % (n.op, ", ".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args))


def variables(nodes):
    seen = set()
    out = {}
    stack = [n for n in nodes if isinstance(n, Node)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ("var", "undef"):
            out[n.args[0]] = n
        stack.extend(a for a in n.args if isinstance(a, Node))
    return out


def rename(n, prefix, memo):
    """n with every variable renamed."""
    r = memo.get(n.id)
    if r is None:
        if n.op == "var":
            r = mk("var", (prefix + n.args[0],) + tuple(n.args[1:]), n.sort)
        else:
            r = mk(n.op, tuple(rename(a, prefix, memo) if isinstance(a, Node) else a for a in n.args), n.sort)
        memo[n.id] = r
    return r


def substitute(n, m, memo):
    """n with the variables in m (name -> Node) replaced."""
    r = memo.get(n.id)
    if r is None:
        if n.op == "var":
            r = m.get(n.args[0], n)
        else:
            a = tuple(substitute(x, m, memo) if isinstance(x, Node) else x for x in n.args)
            r = n if all(x is y for x, y in zip(a, n.args)) else mk(n.op, a, n.sort)
        memo[n.id] = r
    return r


def equalities(conds):
    """variables that the conditions equate with another variable"""
    m = {}
    for c, v in conds:
        if c.op == "fcmp" and (c.args[0], v) in (("oeq", True), ("une", False)):
            a, b = (substitute(x, m, {}) for x in c.args[1:])
            if a.op == "var" and b.op == "var" and a is not b:
                if not a.args[0].startswith("w!"):
                    a, b = b, a
                m = {k: substitute(x, {a.args[0]: b}, {}) for k, x in m.items()}
                m[a.args[0]] = b
    return m
