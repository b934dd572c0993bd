"""Symbolic executor for LLVM IR: one path per run, symbolic branches fork by re-execution with a decision prefix."""
import math
import re
import sys

from . import ir, terms
from .ir import P, ParseError
from .terms import Node, mk, fconst, cells

sys.setrecursionlimit(20000)

SHIFT = 32
OFFMASK = (1 << SHIFT) - 1
# ids: globals 16.., functions 1<<16.., dynamic objects 1<<17..
ID_GLOBAL = 16
ID_FN = 1 << 16
ID_DYN = 1 << 17


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class PathEnd(Exception):
    """kind: error (memory/UB), assert, abort, unsupported, infeasible, budget."""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ": " + msg)
        self.kind = kind
        self.msg = msg


class CxxThrow(Exception):
    def __init__(self, addr, ti):
        Exception.__init__(self, ti)
        self.addr = addr
        self.ti = ti


class Obj:
    __slots__ = ("id", "size", "data", "kind", "name", "const", "tls")

    def __init__(self, id, size, kind, name="", const=False):
        self.tls = False
        self.id = id
        self.size = size
        self.data = [None] * size
        self.kind = kind
        self.name = name
        self.const = const


class Block:
    __slots__ = ("phis", "code", "term", "n", "label", "lp")


class Fn:
    __slots__ = ("name", "nargs", "tmpl", "blocks", "vararg", "ret")


STD_BASES = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt12length_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12domain_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt14overflow_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt15underflow_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc", "_ZTISt9exception"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"],
}

MATH1 = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2",
         "expm1", "log", "log2", "log10", "log1p", "sqrt", "cbrt", "fabs", "floor", "ceil", "trunc", "round", "rint",
         "nearbyint", "erf", "erfc", "tgamma", "lgamma", "exp10"}
MATH2 = {"pow", "atan2", "hypot", "fmod", "remainder", "copysign", "fmin", "fmax", "fdim", "nextafter"}
MATH3 = {"fma"}


class Module:
    """A parsed IR module; functions are compiled to closures on first use."""

    def __init__(self, text):
        self.m = ir.ModuleText(text)
        self.gids = {}
        self.gnames = {}
        self.fids = {}
        self.fnames = {}
        self.compiled = {}
        self.ex = None
        self.ginit = {}

    # -- addresses
    def addr_of(self, name):
        if name in self.m.aliases:
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', self.m.aliases[name])
            return self.addr_of(mm.group(1).strip('"'))
        if name in self.m.fns or name in self.m.decls:
            if name not in self.fids:
                i = ID_FN + len(self.fids)
                self.fids[name] = i
                self.fnames[i] = name
            return self.fids[name] << SHIFT
        if name not in self.gids:
            i = ID_GLOBAL + len(self.gids)
            self.gids[name] = i
            self.gnames[i] = name
        return self.gids[name] << SHIFT

    def global_obj(self, gid):
        name = self.gnames[gid]
        rest = self.m.globals.get(name)
        if rest is None:
            return Obj(gid, 0, "global", name)
        toks = ir.tokenize(rest)
        p = P(toks)
        external = False
        const = False
        while True:
            v = p.peek()[1]
            if v == "external" or v == "extern_weak":
                external = True
            p.i += 1
            if v in ("global", "constant"):
                const = v == "constant"
                break
            if v == "thread_local" and p.peek()[1] == "(":
                p.i += 3
        t = p.type()
        size = self.m.size_align(t)[0]
        o = Obj(gid, size if not external else max(size, 4096), "global", name, const)
        o.tls = "thread_local" in rest.split(" global ")[0].split()
        if not external:
            v = self.const_value(p, t)
            self.store_const(o, 0, t, v)
        return o

    def store_const(self, o, off, t, v):
        u = self.m.resolve(t)
        if v == ("zero",):
            s = self.m.size_align(u)[0]
            o.data[off:off + s] = [0] * s
        elif v is UNDEF:
            return
        elif u[0] == "a":
            s = self.m.size_align(u[2])[0]
            if isinstance(v, bytes):
                o.data[off:off + len(v)] = list(v)
            else:
                for k, e in enumerate(v):
                    self.store_const(o, off + k * s, u[2], e)
        elif u[0] == "t":
            for fo, ft, e in zip(self.m.field_offsets(u), u[1], v):
                self.store_const(o, off + fo, ft, e)
        else:
            s = self.m.size_align(u)[0]
            store_cells(o.data, off, s, v)

    # -- constants
    def const_value(self, p, t):
        u = self.m.resolve(t)
        k, v = p.next()
        if k == "int":
            if u[0] == "i":
                return int(v) & ((1 << u[1]) - 1)
            return fconst(float(v), {"d": "d", "s": "s"}[u[0]])
        if k == "hex":
            if v.startswith("0xK"):
                return fconst(f80(v[3:]), "x")
            b = int(v, 16)
            d = terms.bits2d(b)
            return fconst(d, "s") if u[0] == "s" else fconst(d) if u[0] == "d" else mk("const", (b,), "d")
        if k == "flt":
            d = float(v)
            return fconst(d, u[0])
        if k == "word":
            if v == "null":
                return 0
            if v == "true":
                return 1
            if v == "false":
                return 0
            if v in ("undef", "poison"):
                return UNDEF
            if v == "zeroinitializer":
                return self.zero_value(u) if u[0] not in ("a", "t") else ("zero",)
            if v == "none":
                return 0
            if v == "getelementptr":
                while p.peek()[1] in ("inbounds", "nuw", "nusw"):
                    p.i += 1
                if p.peek()[1] == "inrange":
                    p.i += 2
                    depth = 1
                    while depth:
                        x = p.next()[1]
                        depth += (x == "(") - (x == ")")
                p.expect("(")
                bt = p.type()
                p.expect(",")
                p.accept("inrange")
                pt = p.type()
                base = self.const_value(p, pt)
                idx = []
                while p.accept(","):
                    p.accept("inrange")
                    it = p.type()
                    idx.append(self.const_value(p, it))
                p.expect(")")
                off, dyn = self.gep_offset(bt, [("c", terms.sgn(i, 64) if False else i, 64) for i in idx])
                return (base + off) & (2**64 - 1)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
                p.expect("(")
                ft = p.type()
                x = self.const_value(p, ft)
                p.expect("to")
                tt = p.type()
                p.expect(")")
                return x
            if v in ("add", "sub"):
                while p.peek()[1] in ("nsw", "nuw"):
                    p.i += 1
                p.expect("(")
                ft = p.type()
                a = self.const_value(p, ft)
                p.expect(",")
                ft = p.type()
                b = self.const_value(p, ft)
                p.expect(")")
                return (a + b if v == "add" else a - b) & (2**64 - 1)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.const_value(p, t)
            raise ParseError("constant " + v)
        if k == "id" and v[0] == "@":
            return self.addr_of(v[1:].strip('"'))
        if k == "str":
            return cstring(v)
        if v == "[":
            out = []
            while not p.accept("]"):
                et = p.type()
                out.append(self.const_value(p, et))
                p.accept(",")
            return out
        if v == "{" or v == "<":
            packed = v == "<"
            if packed:
                if not p.accept("{"):
                    out = []
                    while not p.accept(">"):
                        et = p.type()
                        out.append(self.const_value(p, et))
                        p.accept(",")
                    return tuple(out)
            out = []
            while not p.accept("}"):
                et = p.type()
                out.append(self.const_value(p, et))
                p.accept(",")
            if packed:
                p.expect(">")
            return tuple(out)
        raise ParseError("constant %r" % (v,))

    def zero_value(self, u):
        if u[0] in ("d", "s", "x"):
            return fconst(0.0, u[0])
        if u[0] == "t":
            return tuple(self.zero_value(self.m.resolve(e)) for e in u[1])
        if u[0] == "a" or u[0] == "vec":
            return tuple(self.zero_value(self.m.resolve(u[2])) for _ in range(u[1]))
        return 0

    def gep_offset(self, bt, idx):
        """idx: list of ('c', value, width) or ('r', reg, width). Returns (const offset, [(reg, width, scale)])."""
        off = 0
        dyn = []
        t = bt
        first = True
        for kind, v, w in idx:
            if first:
                s = self.m.size_align(t)[0]
                first = False
            else:
                u = self.m.resolve(t)
                if u[0] == "t":
                    off += self.m.field_offsets(u)[v]
                    t = u[1][v]
                    continue
                t = u[2]
                s = self.m.size_align(t)[0]
            if kind == "c":
                off += terms.sgn(v, w) * s
            else:
                dyn.append((v, w, s))
        return off, dyn

    # -- function compilation
    def fn(self, name):
        f = self.compiled.get(name)
        if f is None:
            if name in self.m.aliases:
                mm = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', self.m.aliases[name])
                return self.fn(mm.group(1).strip('"'))
            ft = self.m.fns.get(name)
            if ft is None:
                return None
            f = self.compiled[name] = FnCompiler(self, ft).run()
        return f


def f80(h):
    b = int(h, 16)
    s = b >> 79
    e = (b >> 64) & 0x7fff
    m = b & (2**64 - 1)
    if e == 0x7fff:
        v = math.inf if m << 1 & (2**64 - 1) == 0 else math.nan
    else:
        v = math.ldexp(m, e - 16383 - 63)
    return -v if s else v


def cstring(v):
    v = v[1:] if v[0] == "c" else v
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == "\\":
            if v[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16))
                i += 3
        else:
            out += v[i].encode("utf8")
            i += 1
    return bytes(out)


def store_cells(data, off, size, v):
    if isinstance(v, int):
        data[off:off + size] = v.to_bytes(size, "little")
    elif v is UNDEF:
        data[off:off + size] = [None] * size
    elif isinstance(v, Node):
        if v.op == "const":
            if v.sort == "d":
                data[off:off + 8] = cells(v)
                return
        c = cells(v)
        data[off:off + len(c)] = c
        if len(c) < size:
            data[off + len(c):off + size] = [0] * (size - len(c))
    else:
        raise PathEnd("unsupported", "store of %r" % (v,))


BIN_INT = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"}
BIN_FP = {"fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nneg",
         "disjoint", "nusw", "samesign"}


def ibin(ex, op, a, b, w):
    """Integer binary operation on ints, Nodes, UNDEF."""
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << w) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else UNDEF
        if op == "lshr":
            return a >> b if b < w else UNDEF
        if op == "ashr":
            return (terms.sgn(a, w) >> b) & m if b < w else UNDEF
        if b == 0:
            raise PathEnd("error", "integer division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = terms.sgn(a, w), terms.sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & m
    if a is UNDEF or b is UNDEF:
        if op == "and" and (a == 0 or b == 0):
            return 0
        return UNDEF
    # symbolic
    if isinstance(b, int):
        if b == 0:
            if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("and", "mul"):
                return 0
            raise PathEnd("error", "integer division by zero")
        if b == 1 and op in ("mul", "sdiv", "udiv"):
            return a
        if b == (1 << w) - 1 and op == "and":
            return a
        if w == 1 and op == "xor" and a.op == "fcmp":
            inv = {"oeq": "une", "une": "oeq", "olt": "uge", "uge": "olt", "ogt": "ule", "ule": "ogt", "ole": "ugt",
                   "ugt": "ole", "oge": "ult", "ult": "oge", "one": "ueq", "ueq": "one", "ord": "uno", "uno": "ord"}
            return mk("fcmp", (inv[a.args[0]],) + a.args[1:], 1)
    elif isinstance(a, int):
        if op in ("add", "or", "xor", "mul", "and"):
            return ibin(ex, op, b, a, w)
        if a == 0 and op in ("shl", "lshr", "ashr"):
            return 0
    elif a is b:
        if op in ("sub", "xor"):
            return 0
        if op in ("and", "or"):
            return a
    if op in ("sdiv", "udiv", "srem", "urem") and isinstance(b, Node):
        if ex.decide(mk("icmp", ("eq", b, 0), 1)):
            raise PathEnd("error", "integer division by zero")
    return mk(op, (a, b), w)


def icmp(ex, pred, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(terms.icmp_eval(pred, a, b, w))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a is b:
        return int(pred in ("eq", "sge", "sle", "uge", "ule"))
    if isinstance(a, int):
        sw = {"eq": "eq", "ne": "ne", "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge", "ugt": "ult", "ult": "ugt",
              "uge": "ule", "ule": "uge"}
        return icmp(ex, sw[pred], b, a, w)
    if isinstance(b, int):
        if w == 1:
            if (pred == "eq" and b == 1) or (pred == "ne" and b == 0):
                return a
            if (pred == "ne" and b == 1) or (pred == "eq" and b == 0):
                return ibin(ex, "xor", a, 1, 1)
        if pred in ("eq", "ne") and a.op == "zext":
            iw = a.args[0].sort
            if b >> iw:
                return int(pred == "ne")
            return icmp(ex, pred, a.args[0], b, iw)
    return mk("icmp", (pred, a, b), 1)


def fbin(op, a, b, sort):
    if a is UNDEF:
        a = mk("undef", ("undef",), sort)
    if b is UNDEF:
        b = mk("undef", ("undef",), sort)
    return mk(op, (a, b), sort)


def fcmp(pred, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.isconst and b.isconst:
        return int(terms.fcmp_eval(pred, terms.evaluate(a, {}), terms.evaluate(b, {})))
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    return mk("fcmp", (pred, a, b), 1)


class FnCompiler:
    def __init__(self, mod, ft):
        self.mod = mod
        self.ft = ft
        self.regs = {}
        self.tmpl = []
        self.consts = {}

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.regs[name] = len(self.tmpl)
            self.tmpl.append(UNDEF)
        return r

    def const(self, v):
        try:
            key = (type(v).__name__, v.id if isinstance(v, Node) else v)
            hash(key)
        except TypeError:
            key = None
        if key is not None and key in self.consts:
            return self.consts[key]
        r = len(self.tmpl)
        self.tmpl.append(v)
        if key is not None:
            self.consts[key] = r
        return r

    def operand(self, p, t):
        k, v = p.peek()
        if k == "id" and v[0] == "%":
            p.i += 1
            return self.reg(v)
        c = self.mod.const_value(p, t)
        if c == ("zero",):
            c = self.mod.zero_value(self.mod.m.resolve(t))
        if isinstance(c, list):
            c = tuple(c)
        return self.const(c)

    def operand_or_const(self, p, t, w):
        k, v = p.peek()
        if k == "id" and v[0] == "%":
            p.i += 1
            return ("r", self.reg(v), w)
        return ("c", self.mod.const_value(p, t), w)

    def run(self):
        f = Fn()
        f.name = self.ft.name
        h = self.ft.header
        # argument list: text between the '(' after the name and its matching ')'
        at = h.find('@"' + f.name + '"(')
        i = at + len(f.name) + 3 if at >= 0 else h.index("@" + f.name + "(") + len(f.name) + 1
        depth = 0
        instr = False
        for j in range(i, len(h)):
            c = h[j]
            if c == '"':
                instr = not instr
            if instr:
                continue
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    break
        p = P(h[i + 1:j])
        n = 0
        unnamed = 0
        f.vararg = False
        while p.peek()[0] is not None:
            if p.peek()[0] == "dots":
                p.i += 1
                f.vararg = True
                continue
            p.type()
            p.attrs()
            if p.peek()[0] == "id":
                name = p.next()[1]
                if name[1:].isdigit():
                    unnamed = max(unnamed, int(name[1:]) + 1)
            else:
                name = "%" + str(unnamed)
                unnamed += 1
            assert self.reg(name) == n
            n += 1
            p.accept(",")
        f.nargs = n
        lines = ir.join_lines(self.ft.lines)
        blocks = []
        cur = None
        for l in lines:
            m = ir.LABELRE.match(l)
            if m and not l.startswith(" "):
                cur = (m.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = (str(unnamed), [])
                blocks.append(cur)
            if l.strip().startswith(";"):
                continue
            cur[1].append(l.strip())
        self.bidx = {b[0].strip('"'): k for k, b in enumerate(blocks)}
        f.blocks = []
        for k, (label, code) in enumerate(blocks):
            b = Block()
            b.label = k
            b.phis = []
            b.code = []
            b.term = None
            b.lp = None
            for s in code:
                try:
                    self.instr(b, s)
                except ParseError as e:
                    msg = "%s in %s: %s" % (e, f.name, s[:200])

                    def bad(R, msg=msg):
                        raise PathEnd("unsupported", msg)
                    if re.match(r"(br|ret|switch|invoke|resume|unreachable|indirectbr)\b", s):
                        b.term = bad
                    else:
                        b.code.append(bad)
            b.n = len(b.code) + 1
            if b.phis:
                b.phis = self.phi_table(b.phis)
            f.blocks.append(b)
        f.tmpl = self.tmpl
        return f

    def phi_table(self, phis):
        preds = {}
        for dst, inc in phis:
            for pr, src in inc:
                preds.setdefault(pr, []).append((dst, src))
        return preds

    def label(self, p):
        p.expect("label")
        v = p.next()[1]
        return self.bidx[v[1:].strip('"')]

    def instr(self, b, s):
        mod = self.mod
        p = P(s)
        dst = None
        if p.peek()[0] == "id" and p.peek(1)[1] == "=":
            dst = p.next()[1]
            p.i += 1
            dst = self.reg(dst)
        op = p.next()[1]
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op in BIN_INT:
            while p.peek()[1] in FLAGS:
                p.i += 1
            t = mod.m.resolve(p.type())
            if t[0] != "i":
                raise ParseError("vector op")
            a = self.operand(p, t)
            p.expect(",")
            c = self.operand(p, t)
            b.code.append(self.c_ibin(op, dst, a, c, t[1]))
        elif op in BIN_FP:
            while p.peek()[1] in FLAGS:
                p.i += 1
            t = mod.m.resolve(p.type())
            if t[0] not in ("d", "s", "x"):
                raise ParseError("vector op")
            a = self.operand(p, t)
            p.expect(",")
            c = self.operand(p, t)
            sort = t[0]

            def f_fbin(R):
                x = R[a]
                y = R[c]
                if x is UNDEF or y is UNDEF:
                    R[dst] = fbin(op, x, y, sort)
                else:
                    R[dst] = mk(op, (x, y), sort)
            b.code.append(f_fbin)
        elif op == "fneg":
            while p.peek()[1] in FLAGS:
                p.i += 1
            t = mod.m.resolve(p.type())
            if t[0] not in ("d", "s", "x"):
                raise ParseError("vector op")
            a = self.operand(p, t)
            sort = t[0]

            def f_fneg(R):
                x = R[a]
                if x is UNDEF:
                    x = mk("undef", ("undef",), sort)
                R[dst] = mk("fneg", (x,), sort)
            b.code.append(f_fneg)
        elif op == "icmp":
            while p.peek()[1] in FLAGS:
                p.i += 1
            pred = p.next()[1]
            t = mod.m.resolve(p.type())
            w = 64 if t[0] == "p" else t[1]
            a = self.operand(p, t)
            p.expect(",")
            c = self.operand(p, t)

            def f_icmp(R):
                R[dst] = icmp(mod.ex, pred, R[a], R[c], w)
            b.code.append(f_icmp)
        elif op == "fcmp":
            while p.peek()[1] in FLAGS:
                p.i += 1
            pred = p.next()[1]
            t = mod.m.resolve(p.type())
            a = self.operand(p, t)
            p.expect(",")
            c = self.operand(p, t)

            def f_fcmp(R):
                R[dst] = fcmp(pred, R[a], R[c])
            b.code.append(f_fcmp)
        elif op == "alloca":
            p.accept("inalloca")
            t = p.type()
            cnt = None
            size = mod.m.size_align(t)[0]
            if p.accept(","):
                if p.peek()[1] != "align":
                    ct = p.type()
                    cnt = self.operand(p, ct)

            def f_alloca(R):
                n = size
                if cnt is not None:
                    n = size * mod.ex.concrete(R[cnt], 64)
                R[dst] = mod.ex.alloc(n, "stack")
            b.code.append(f_alloca)
        elif op == "load":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.expect(",")
            pt = p.type()
            a = self.operand(p, pt)
            u = mod.m.resolve(t)

            def f_load(R):
                R[dst] = mod.ex.load(R[a], u)
            b.code.append(f_load)
        elif op == "store":
            atomic = p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = self.operand(p, t)
            p.expect(",")
            pt = p.type()
            a = self.operand(p, pt)
            u = mod.m.resolve(t)

            def f_store(R):
                mod.ex.store(R[a], u, R[v])

            def f_store_atomic(R):
                mod.ex.ordered += 1
                mod.ex.store(R[a], u, R[v])
                mod.ex.ordered -= 1
            if atomic:
                f_store = f_store_atomic
            b.code.append(f_store)
        elif op == "getelementptr":
            while p.peek()[1] in FLAGS:
                p.i += 1
            bt = p.type()
            p.expect(",")
            pt = p.type()
            base = self.operand(p, pt)
            idx = []
            while p.accept(","):
                it = mod.m.resolve(p.type())
                idx.append(self.operand_or_const(p, it, it[1]))
            off, dyn = mod.gep_offset(bt, idx)
            M = (1 << 64) - 1
            if not dyn:
                def f_gep(R):
                    x = R[base]
                    if type(x) is int:
                        R[dst] = (x + off) & M
                    else:
                        R[dst] = ibin(mod.ex, "add", x, off & M, 64)
            else:
                def f_gep(R):
                    x = R[base]
                    if type(x) is int:
                        x = (x + off) & M
                    else:
                        x = ibin(mod.ex, "add", x, off & M, 64)
                    for r, w, s in dyn:
                        i = R[r]
                        if type(i) is int:
                            if i >> (w - 1):
                                i -= 1 << w
                            i = i * s & M
                        elif i is UNDEF:
                            raise PathEnd("error", "uninitialised index in address computation")
                        else:
                            if w < 64:
                                i = mk("sext", (i,), 64)
                            i = ibin(mod.ex, "mul", i, s, 64)
                        if type(x) is int and type(i) is int:
                            x = (x + i) & M
                        else:
                            x = ibin(mod.ex, "add", x, i, 64)
                    R[dst] = x
            b.code.append(f_gep)
        elif op == "phi":
            while p.peek()[1] in FLAGS:
                p.i += 1
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = self.operand(p, t)
                p.expect(",")
                l = p.next()[1]
                p.expect("]")
                inc.append((self.bidx[l[1:].strip('"')], v))
                if not p.accept(","):
                    break
                if p.peek()[0] == "meta":
                    break
            b.phis.append((dst, inc))
        elif op == "select":
            while p.peek()[1] in FLAGS:
                p.i += 1
            ct = p.type()
            c = self.operand(p, ct)
            p.expect(",")
            t = p.type()
            x = self.operand(p, t)
            p.expect(",")
            p.type()
            y = self.operand(p, t)

            def f_select(R):
                v = R[c]
                if type(v) is int:
                    R[dst] = R[x] if v else R[y]
                elif R[x] is R[y]:
                    R[dst] = R[x]
                elif v is UNDEF:
                    raise PathEnd("error", "select on an uninitialised condition")
                else:
                    R[dst] = R[x] if mod.ex.decide(v) else R[y]
            b.code.append(f_select)
        elif op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast",
                    "ptrtoint", "inttoptr", "addrspacecast"):
            while p.peek()[1] in FLAGS:
                p.i += 1
            ft = mod.m.resolve(p.type())
            a = self.operand(p, ft)
            p.expect("to")
            tt = mod.m.resolve(p.type())
            if "vec" in (ft[0], tt[0]):
                raise ParseError("vector cast")
            b.code.append(self.c_cast(op, dst, a, ft, tt))
        elif op == "freeze":
            t = mod.m.resolve(p.type())
            a = self.operand(p, t)

            def f_freeze(R):
                v = R[a]
                if v is UNDEF:
                    v = mod.ex.fresh(t)
                R[dst] = v
            b.code.append(f_freeze)
        elif op == "extractvalue":
            t = p.type()
            a = self.operand(p, t)
            path = []
            while p.accept(","):
                path.append(int(p.next()[1]))

            def f_ev(R):
                v = R[a]
                for k in path:
                    v = UNDEF if v is UNDEF else v[k]
                R[dst] = v
            b.code.append(f_ev)
        elif op == "insertvalue":
            t = p.type()
            u = mod.m.resolve(t)
            a = self.operand(p, t)
            p.expect(",")
            vt = p.type()
            v = self.operand(p, vt)
            path = []
            while p.accept(","):
                path.append(int(p.next()[1]))
            mm = mod.m

            def ins(agg, u, path, v):
                n = len(u[1]) if u[0] == "t" else u[1]
                l = [UNDEF] * n if agg is UNDEF else list(agg)
                if len(path) == 1:
                    l[path[0]] = v
                else:
                    et = mm.resolve(u[1][path[0]] if u[0] == "t" else u[2])
                    l[path[0]] = ins(l[path[0]], et, path[1:], v)
                return tuple(l)

            def f_iv(R):
                R[dst] = ins(R[a], u, path, R[v])
            b.code.append(f_iv)
        elif op == "call":
            b.code.append(self.c_call(p, dst, s))
        elif op == "invoke":
            fcall, normal, unwind = self.c_invoke(p, dst, s)

            def t_invoke(R):
                try:
                    fcall(R)
                except CxxThrow as e:
                    mod.ex.exc = e
                    return unwind
                return normal
            b.term = t_invoke
        elif op == "landingpad":
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek()[0] is not None:
                k, v = p.next()
                if v == "cleanup":
                    cleanup = True
                elif v == "catch":
                    ct = p.type()
                    clauses.append(("catch", mod.const_value(p, ct)))
                elif v == "filter":
                    ct = p.type()
                    c = mod.const_value(p, ct)
                    clauses.append(("filter", c))
                elif k == "meta" or v == ",":
                    break

            def f_lp(R):
                e = mod.ex.exc
                for kind, c in clauses:
                    if kind == "filter":
                        if not c or c == ("zero",):
                            R[dst] = (e.addr, (1 << 32) - 1)
                            return
                        continue
                    if c == 0 or mod.ex.matches(e.ti, c):
                        R[dst] = (e.addr, mod.ex.typeid(c))
                        return
                if not cleanup:
                    raise e
                R[dst] = (e.addr, 0)
            b.code.append(f_lp)
        elif op == "resume":
            t = p.type()
            a = self.operand(p, t)

            def t_resume(R):
                raise mod.ex.exc_of(R[a][0])
            b.term = t_resume
        elif op == "ret":
            t = p.type()
            if t == ir.VOID:
                b.term = lambda R: (None,)
            else:
                a = self.operand(p, t)
                b.term = lambda R: (R[a],)
        elif op == "br":
            if p.peek()[1] == "label":
                l = self.label(p)
                b.term = lambda R: l
            else:
                t = p.type()
                a = self.operand(p, t)
                p.expect(",")
                l1 = self.label(p)
                p.expect(",")
                l2 = self.label(p)

                def t_br(R):
                    v = R[a]
                    if type(v) is int:
                        return l1 if v else l2
                    if v is UNDEF:
                        raise PathEnd("error", "branch on an uninitialised value")
                    return l1 if mod.ex.decide(v) else l2
                b.term = t_br
        elif op == "switch":
            t = mod.m.resolve(p.type())
            a = self.operand(p, t)
            p.expect(",")
            d = self.label(p)
            p.expect("[")
            cases = {}
            while not p.accept("]"):
                ct = p.type()
                v = mod.const_value(p, ct)
                p.expect(",")
                cases[v] = self.label(p)
            w = t[1]

            def t_switch(R):
                v = R[a]
                if type(v) is int:
                    return cases.get(v, d)
                if v is UNDEF:
                    raise PathEnd("error", "switch on an uninitialised value")
                for c, l in cases.items():
                    if mod.ex.decide(icmp(mod.ex, "eq", v, c, w)):
                        return l
                return d
            b.term = t_switch
        elif op == "unreachable":
            def t_unr(R):
                raise PathEnd("error", "reached 'unreachable' (undefined behaviour) in " + self.ft.name)
            b.term = t_unr
        elif op == "fence":
            pass
        elif op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            pt = p.type()
            a = self.operand(p, pt)
            p.expect(",")
            t = mod.m.resolve(p.type())
            c = self.operand(p, t)
            p.expect(",")
            p.type()
            v = self.operand(p, t)

            def f_cx(R):
                old = mod.ex.load(R[a], t)
                eq = icmp(mod.ex, "eq", old, R[c], t[1] if t[0] == "i" else 64)
                if type(eq) is not int:
                    eq = int(mod.ex.decide(eq))
                if eq:
                    mod.ex.ordered += 1
                    mod.ex.store(R[a], t, R[v])
                    mod.ex.ordered -= 1
                R[dst] = (old, eq)
            b.code.append(f_cx)
        elif op == "atomicrmw":
            p.accept("volatile")
            kind = p.next()[1]
            pt = p.type()
            a = self.operand(p, pt)
            p.expect(",")
            t = mod.m.resolve(p.type())
            v = self.operand(p, t)
            if kind not in ("add", "sub", "and", "or", "xor", "xchg"):
                raise ParseError("atomicrmw " + kind)

            def f_rmw(R):
                old = mod.ex.load(R[a], t)
                mod.ex.ordered += 1
                mod.ex.store(R[a], t, R[v] if kind == "xchg" else ibin(mod.ex, kind, old, R[v], t[1]))
                mod.ex.ordered -= 1
                R[dst] = old
            b.code.append(f_rmw)
        else:
            raise ParseError("instruction " + op)

    def c_ibin(self, op, dst, a, c, w):
        mod = self.mod
        m = (1 << w) - 1
        if op == "add":
            def f(R):
                x = R[a]
                y = R[c]
                if type(x) is int and type(y) is int:
                    R[dst] = (x + y) & m
                else:
                    R[dst] = ibin(mod.ex, op, x, y, w)
            return f

        def f(R):
            R[dst] = ibin(mod.ex, op, R[a], R[c], w)
        return f

    def c_cast(self, op, dst, a, ft, tt):
        mod = self.mod
        if op == "bitcast" and ft != tt:
            if ft[0] == "i" and tt[0] in ("d", "s"):
                def f(R):
                    v = R[a]
                    if type(v) is int:
                        R[dst] = mk("const", (v,), tt[0])
                    elif v is UNDEF:
                        R[dst] = UNDEF
                    elif v.op == "tobits":
                        R[dst] = v.args[0]
                    else:
                        R[dst] = mk("frombits", (v,), tt[0])
                return f
            if ft[0] in ("d", "s") and tt[0] == "i":
                def f(R):
                    v = R[a]
                    if v is UNDEF:
                        R[dst] = UNDEF
                    elif v.op == "const":
                        R[dst] = v.args[0]
                    elif v.op == "frombits":
                        R[dst] = v.args[0]
                    else:
                        R[dst] = mk("tobits", (v,), tt[1])
                return f
            raise ParseError("bitcast")
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            if op == "ptrtoint" and tt[1] < 64:
                m = (1 << tt[1]) - 1

                def f(R):
                    R[dst] = R[a] & m
                return f

            def f(R):
                R[dst] = R[a]
            return f
        if op == "trunc":
            w = tt[1]
            m = (1 << w) - 1

            def f(R):
                v = R[a]
                if type(v) is int:
                    R[dst] = v & m
                elif v is UNDEF:
                    R[dst] = UNDEF
                elif v.op in ("zext", "sext") and v.args[0].sort == w:
                    R[dst] = v.args[0]
                else:
                    R[dst] = mk("trunc", (v,), w)
            return f
        if op in ("zext", "sext"):
            w0, w = ft[1], tt[1]
            m = (1 << w) - 1

            def f(R):
                v = R[a]
                if type(v) is int:
                    R[dst] = v if op == "zext" else terms.sgn(v, w0) & m
                elif v is UNDEF:
                    R[dst] = UNDEF
                else:
                    R[dst] = mk(op, (v,), w)
            return f
        if op in ("sitofp", "uitofp"):
            w0, s = ft[1], tt[0]

            def f(R):
                v = R[a]
                if type(v) is int:
                    x = float(terms.sgn(v, w0) if op == "sitofp" else v)
                    R[dst] = fconst(terms.f32(x) if s == "s" else x, s)
                elif v is UNDEF:
                    R[dst] = UNDEF
                else:
                    R[dst] = mk(op, (v,), s)
            return f
        if op in ("fptosi", "fptoui"):
            w = tt[1]
            m = (1 << w) - 1

            def f(R):
                v = R[a]
                if v is UNDEF:
                    R[dst] = UNDEF
                elif v.isconst:
                    x = terms.evaluate(v, {})
                    if x != x or math.isinf(x):
                        R[dst] = UNDEF
                    else:
                        R[dst] = int(x) & m
                else:
                    R[dst] = mk(op, (v,), w)
            return f
        if op in ("fpext", "fptrunc"):
            s = tt[0]

            def f(R):
                v = R[a]
                if v is UNDEF:
                    R[dst] = UNDEF
                elif v.op == "const":
                    x = terms.constval(v)
                    R[dst] = fconst(terms.f32(x) if s == "s" else x, s)
                elif op == "fptrunc" and v.op == "fpext" and v.args[0].sort == s:
                    R[dst] = v.args[0]
                else:
                    R[dst] = mk(op, (v,), s)
            return f
        raise ParseError(op)

    def parse_callee(self, p):
        """After call/invoke keyword: [fastmath][cc] [retattrs] type callee(args). Returns (rett, callee, args, byvals)."""
        mod = self.mod
        while p.peek()[1] in FLAGS or p.peek()[1] in ("fastcc", "coldcc", "ccc"):
            p.i += 1
        p.attrs()
        t = p.type()
        if t[0] == "fn":
            t = t[1]
        k, v = p.next()
        if k == "id" and v[0] == "@":
            callee = v[1:].strip('"')
        elif k == "id":
            callee = ("r", self.reg(v))
        elif v == "asm":
            raise ParseError("inline asm")
        elif v == "null":
            raise ParseError("call null")
        else:
            raise ParseError("callee %r" % v)
        p.expect("(")
        args = []
        byv = []
        while not p.accept(")"):
            at = p.type()
            attrs = p.attrs()
            if at == META:
                # skip metadata operand
                depth = 0
                while True:
                    x = p.peek()[1]
                    if depth == 0 and x in (",", ")"):
                        break
                    depth += (x in "([{") - (x in ")]}") if x else 0
                    p.i += 1
                args.append(self.const(0))
            else:
                args.append(self.operand(p, at))
                if "byval" in attrs:
                    byv.append((len(args) - 1, mod.m.size_align(attrs["byval"])[0]))
            p.accept(",")
        return t, callee, args, byv

    def c_call(self, p, dst, s):
        t, callee, args, byv = self.parse_callee(p)
        return self.make_call(t, callee, args, byv, dst)

    def c_invoke(self, p, dst, s):
        t, callee, args, byv = self.parse_callee(p)
        while p.peek()[1] != "to":
            if p.peek()[0] is None:
                raise ParseError("invoke")
            p.i += 1
        p.i += 1
        normal = self.label(p)
        p.expect("unwind")
        unwind = self.label(p)
        return self.make_call(t, callee, args, byv, dst), normal, unwind

    def make_call(self, t, callee, args, byv, dst):
        mod = self.mod
        rt = mod.m.resolve(t) if t != ir.VOID else t

        if isinstance(callee, tuple):
            creg = callee[1]

            def f(R):
                a = R[creg]
                if a is UNDEF:
                    raise PathEnd("error", "call through an uninitialised pointer")
                a = mod.ex.concrete(a, 64)
                name = mod.fnames.get(a >> SHIFT)
                if name is None or a & OFFMASK:
                    raise PathEnd("error", "call through an invalid function pointer")
                v = mod.ex.call(name, mod.ex.byval([R[i] for i in args], byv), rt)
                if dst is not None:
                    R[dst] = v
            return f
        name = callee
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg") or name == "llvm.assume" or \
                name.startswith("llvm.experimental.noalias") or name == "llvm.donothing" or name.startswith("llvm.prefetch") \
                or name.startswith("llvm.invariant.end"):
            def f(R):
                pass
            return f
        if byv:
            def f(R):
                v = mod.ex.call(name, mod.ex.byval([R[i] for i in args], byv), rt)
                if dst is not None:
                    R[dst] = v
            return f

        def f(R):
            v = mod.ex.call(name, [R[i] for i in args], rt)
            if dst is not None:
                R[dst] = v
        return f


META = ir.META


class Path:
    """One explored path."""

    def __init__(self):
        self.conds = []       # [(Node, bool)]
        self.outcome = None   # 'ret' | 'throw' | 'assert' | 'abort' | 'error' | 'unsupported' | 'budget'
        self.detail = ""
        self.ret = None
        self.out = None       # what finish() extracted
        self.leaks = []
        self.undefs = 0


class Executor:
    def __init__(self, mod, feasible=None, budget=30_000_000, externs=None, max_paths=256, hash_model="fnv"):
        self.mod = mod
        mod.ex = self
        self.feasible = feasible
        self.budget = budget
        self.max_paths = max_paths
        self.hash_model = hash_model
        self.ext = dict(externs or {})
        self.executed = set()
        self.instrs = 0
        self.forks = 0
        self.pruned = 0
        self.snapshot = None
        self.fault = None       # 64-bit term: ordinal of the operator new call that throws std::bad_alloc

    # ------------------------------------------------------------------ memory
    def reset(self):
        self.objs = {}
        self.nextid = ID_DYN
        self.exc = None
        self.exceptions = {}
        self.caught = []
        self.stack = []
        self.steps = 0
        self.conds = []
        self.condmap = {}
        self.pos = 0
        self.nfresh = 0
        self.events = []
        self.userdata = {}
        self.frame = None
        self.touched = set()        # mutable static objects accessed
        self.written = set()        # ... and written
        self.races = {}             # writes to shared storage that nothing orders: name -> function
        self.ordered = 0            # inside a guarded initialisation, a lock or an atomic operation
        self.frozen = None          # ids of objects shared with other threads
        self.nalloc = 0
        self.armed = False

    def alloc(self, size, kind, name=""):
        i = self.nextid
        self.nextid += 1
        self.objs[i] = Obj(i, size, kind, name)
        if kind == "stack" and self.frame is not None:
            self.frame.append(i)
        return i << SHIFT

    def obj(self, addr, size, write=False):
        if type(addr) is not int:
            addr = self.concrete(addr, 64)
        i = addr >> SHIFT
        o = self.objs.get(i)
        if o is None:
            if i in self.mod.gnames:
                o = self.mod.ginit.get(i)
                if o is None:
                    o = self.mod.ginit[i] = self.mod.global_obj(i)
                if not o.const:
                    c = Obj(o.id, o.size, o.kind, o.name, o.const)
                    c.data = list(o.data)
                    c.tls = o.tls
                    o = c
                self.objs[i] = o
            elif addr < (1 << SHIFT):
                raise PathEnd("error", "access through a null pointer (address %d)" % addr)
            elif ID_DYN <= i < self.nextid:
                raise PathEnd("error", "access to storage that is no longer live")
            else:
                raise PathEnd("error", "access to an invalid address")
        off = addr & OFFMASK
        if off + size > o.size:
            if off > OFFMASK // 2:
                off -= 1 << SHIFT
            raise PathEnd("error", "out-of-bounds %s of %d bytes at offset %d of a %d byte %s object %s" % (
                "write" if write else "read", size, off, o.size, o.kind, o.name))
        if write:
            if o.const:
                raise PathEnd("error", "write to constant " + o.name)
            if self.frozen is not None and o.id in self.frozen and not self.ordered:
                self.races.setdefault("shared operand", self.stack[-1] if self.stack else "")
        if o.kind == "global" and not o.const and "hjx_" not in o.name and "8pybind114stub" not in o.name:      # not the harness's own
            self.touched.add(o.name)
            if write:
                self.written.add(o.name)
                if not self.ordered and not o.tls and not o.name.startswith("_ZGV"):
                    self.races.setdefault(o.name, self.stack[-1] if self.stack else "")
        return o, off

    def begin(self):
        """What follows is the operation itself: forget what set-up touched."""
        self.touched, self.written, self.races = set(), set(), {}

    def freeze(self, private):
        """Everything live now except the given objects is visible to other threads from here on."""
        self.frozen = {i for i, o in self.objs.items() if i not in private and o.kind in ("global", "heap", "static-heap", "stack")}

    def unreachable(self):
        """Live heap objects no static object leads to."""
        heap = [o for o in self.objs.values() if o.kind == "heap"]
        todo = [o for o in self.objs.values() if o.kind in ("global", "static-heap") and not o.const] if heap else []
        seen = set()
        while todo:
            d = todo.pop().data
            for k in range(0, len(d) - 7, 8):
                b = d[k:k + 8]
                if all(type(x) is int for x in b):
                    i = int.from_bytes(bytes(b), "little") >> SHIFT
                    if i not in seen and i in self.objs:
                        seen.add(i)
                        if self.objs[i].kind == "heap":
                            todo.append(self.objs[i])
        return [o for o in heap if o.id not in seen]

    def load(self, addr, u):
        k = u[0]
        if k == "d":
            o, off = self.obj(addr, 8)
            b = o.data[off]
            if type(b) is tuple:
                n = b[0]
                if b[1] == 0 and o.data[off:off + 8] == n.cells:
                    if n.sort == "d":
                        return n
                    if n.sort == 64:
                        return mk("frombits", (n,), "d")
            return self.load_slow(o, off, u)
        if k == "i" or k == "p":
            w = 64 if k == "p" else u[1]
            s = (w + 7) // 8
            o, off = self.obj(addr, s)
            try:
                v = int.from_bytes(bytes(o.data[off:off + s]), "little")
                if w & 7:
                    v &= (1 << w) - 1
                return v
            except TypeError:
                return self.load_slow(o, off, u)
        if k in ("s", "x"):
            o, off = self.obj(addr, 4 if k == "s" else 16)
            return self.load_slow(o, off, u)
        if k == "t":
            return tuple(self.load(addr + fo, self.mod.m.resolve(ft)) for fo, ft in
                         zip(self.mod.m.field_offsets(u), u[1]))
        if k in ("a", "vec"):
            s = self.mod.m.size_align(u[2])[0]
            et = self.mod.m.resolve(u[2])
            return tuple(self.load(addr + j * s, et) for j in range(u[1]))
        raise PathEnd("unsupported", "load of %r" % (u,))

    def load_slow(self, o, off, u):
        k = u[0]
        if k in ("d", "s", "x"):
            s = {"d": 8, "s": 4, "x": 16}[k]
            bs = o.data[off:off + s]
            if all(type(b) is int for b in bs):
                v = int.from_bytes(bytes(bs), "little")
                if k == "x":
                    raise PathEnd("unsupported", "long double bytes")
                return mk("const", (v,), k)
            if any(b is None for b in bs):
                return mk("undef", ("undef",), k)
            b = bs[0]
            if type(b) is tuple and bs == cells(b[0]):
                n = b[0]
                if n.sort == k:
                    return n
                if isinstance(n.sort, int):
                    return mk("frombits", (n,), k)
            raise PathEnd("unsupported", "load of a partially overwritten %s" % k)
        w = 64 if k == "p" else u[1]
        s = (w + 7) // 8
        bs = o.data[off:off + s]
        if any(b is None for b in bs):
            if all(b is None for b in bs):
                return UNDEF
            return UNDEF
        b = bs[0]
        if type(b) is tuple and b[1] == 0:
            n = b[0]
            if bs == cells(n):
                if n.sort == w:
                    return n
                if n.sort == "d" and w == 64 or n.sort == "s" and w == 32:
                    return n.args[0] if n.op == "const" else mk("tobits", (n,), w)
                if isinstance(n.sort, int) and n.sort < w:
                    return mk("zext", (n,), w)
                if isinstance(n.sort, int) and n.sort > w:
                    return mk("trunc", (n,), w)
        # mixed bytes: assemble
        v = 0
        for i, b in enumerate(bs):
            if type(b) is int:
                x = b
            else:
                n, kk = b
                if n.sort == "d":
                    n = n.args[0] if n.op == "const" else mk("tobits", (n,), 64)
                elif n.sort == "s":
                    n = n.args[0] if n.op == "const" else mk("tobits", (n,), 32)
                elif n.sort == "x":
                    raise PathEnd("unsupported", "bytes of a long double")
                if type(n) is int:
                    x = (n >> (8 * kk)) & 255
                else:
                    x = n
                    if n.sort < 8:
                        x = mk("zext", (n,), 8)
                    elif n.sort > 8:
                        x = mk("trunc", (ibin(self, "lshr", n, 8 * kk, n.sort),), 8)
            x = mk("zext", (x,), w) if isinstance(x, Node) and w > 8 else x
            v = ibin(self, "or", v, ibin(self, "shl", x, 8 * i, w), w)
        return v

    def store(self, addr, u, v):
        k = u[0]
        if k == "d":
            o, off = self.obj(addr, 8, True)
            if type(v) is Node:
                o.data[off:off + 8] = v.cells or cells(v)
            else:
                o.data[off:off + 8] = [None] * 8
            return
        if k == "i" or k == "p":
            w = 64 if k == "p" else u[1]
            s = (w + 7) // 8
            o, off = self.obj(addr, s, True)
            if type(v) is int:
                o.data[off:off + s] = v.to_bytes(s, "little")
            else:
                store_cells(o.data, off, s, v)
            return
        if k in ("s", "x"):
            s = 4 if k == "s" else 16
            o, off = self.obj(addr, s, True)
            store_cells(o.data, off, s, v)
            return
        if k == "t":
            for j, (fo, ft) in enumerate(zip(self.mod.m.field_offsets(u), u[1])):
                self.store(addr + fo, self.mod.m.resolve(ft), UNDEF if v is UNDEF else v[j])
            return
        if k in ("a", "vec"):
            s = self.mod.m.size_align(u[2])[0]
            et = self.mod.m.resolve(u[2])
            for j in range(u[1]):
                self.store(addr + j * s, et, UNDEF if v is UNDEF else v[j])
            return
        raise PathEnd("unsupported", "store of %r" % (u,))

    def memcpy(self, d, s, n, what="memcpy"):
        n = self.concrete(n, 64)
        if n == 0:
            return
        so, soff = self.obj(s, n)
        do, doff = self.obj(d, n, True)
        if what == "memcpy" and so is do and soff != doff and abs(soff - doff) < n:
            raise PathEnd("error", "memcpy on overlapping ranges")
        do.data[doff:doff + n] = so.data[soff:soff + n]

    def memset(self, d, v, n):
        n = self.concrete(n, 64)
        if n == 0:
            return
        o, off = self.obj(d, n, True)
        if type(v) is not int:
            raise PathEnd("unsupported", "memset with a symbolic byte")
        o.data[off:off + n] = [v & 255] * n

    def free(self, p, kind=("heap",)):
        p = self.concrete(p, 64)
        if p == 0:
            return
        i = p >> SHIFT
        o = self.objs.get(i)
        if o is None or p & OFFMASK or o.kind not in kind:
            raise PathEnd("error", "invalid or double free")
        del self.objs[i]

    def cstr(self, addr, limit=100000):
        out = bytearray()
        addr = self.concrete(addr, 64)
        while len(out) < limit:
            o, off = self.obj(addr + len(out), 1)
            b = o.data[off]
            if type(b) is not int:
                raise PathEnd("error" if b is None else "unsupported", "string with uninitialised or symbolic bytes")
            if b == 0:
                return bytes(out)
            out.append(b)
        raise PathEnd("unsupported", "long string")

    def rbytes(self, addr, n):
        n = self.concrete(n, 64)
        if n == 0:
            return b""
        o, off = self.obj(addr, n)
        bs = o.data[off:off + n]
        if any(type(b) is not int for b in bs):
            raise PathEnd("error" if any(b is None for b in bs) else "unsupported", "uninitialised or symbolic bytes read")
        return bytes(bs)

    def byval(self, args, byv):
        for i, size in byv:
            a = self.alloc(size, "stack")
            self.memcpy(a, args[i], size)
            args[i] = a
        return args

    def fresh(self, t):
        self.nfresh += 1
        n = "frz%d" % self.nfresh
        if t[0] in ("d", "s"):
            return mk("var", (n,), t[0])
        return mk("var", (n,), 64 if t[0] == "p" else t[1])

    # ------------------------------------------------------------------ symbolic decisions
    def decide(self, c):
        if type(c) is int:
            return bool(c)
        neg = False
        if c.op == "xor" and c.sort == 1 and c.args[1] == 1:
            c = c.args[0]
            neg = True
        k = self.condmap.get(c.id)
        if k is not None:
            return k != neg
        if c.isconst:
            return bool(terms.evaluate(c, {})) != neg
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
        else:
            t = self.feasible(self.conds + [(c, True)]) if self.feasible else True
            f = self.feasible(self.conds + [(c, False)]) if self.feasible else True
            if not t and not f:
                raise PathEnd("infeasible", "")
            if t and f:
                self.forks += 1
                v, forced = True, False
                self.todo.append(self.prefix_now() + [(False, False)])
            else:
                v, forced = t, True
                self.pruned += 1
        self.pos += 1
        self.taken.append((v, forced))
        self.condmap[c.id] = v
        if not forced:
            self.conds.append((c, v))
        return v != neg

    def prefix_now(self):
        return list(self.taken)

    def concrete(self, v, w):
        if type(v) is int:
            return v
        if v is UNDEF:
            raise PathEnd("error", "use of an uninitialised value as address or size")
        if v.isconst:
            return terms.evaluate(v, {})
        if self.model_value is None:
            raise PathEnd("unsupported", "symbolic address or size")
        for _ in range(4096):
            c = self.model_value(self.conds, v) if self.pos >= len(self.prefix) or True else None
            if c is None:
                raise PathEnd("unsupported", "cannot concretise a symbolic address or size")
            if self.decide(mk("icmp", ("eq", v, c), 1)):
                return c
        raise PathEnd("unsupported", "too many values for a symbolic address or size")

    model_value = None
    npaths = 0

    # ------------------------------------------------------------------ exceptions
    def matches(self, ti, clause):
        name = self.mod.gnames.get(clause >> SHIFT)
        return name == ti or name in STD_BASES.get(ti, [])

    def typeid(self, clause):
        return 1 + (clause >> SHIFT) if clause else 1

    def exc_of(self, addr):
        return self.exceptions[addr]

    def throw_std(self, ti, msg=""):
        a = self.alloc(64, "exc", ti)
        self.mod.addr_of(ti)
        e = CxxThrow(a, ti)
        e.msg = msg
        self.exceptions[a] = e
        raise e

    # ------------------------------------------------------------------ calls
    def call(self, name, args, rt=None):
        h = self.ext.get(name)
        if h is not None:
            return h(self, args)
        fn = self.mod.compiled.get(name)
        if fn is None:
            h = find_model(name)
            if h is not None:
                self.ext[name] = h
                return h(self, args)
            fn = self.mod.fn(name)
            if fn is None:
                raise PathEnd("unsupported", "external function " + name)
        return self.run_fn(fn, args)

    def run_fn(self, fn, args):
        self.executed.add(fn.name)
        R = fn.tmpl[:]
        n = fn.nargs
        R[:n] = args[:n]
        saved = self.frame
        frame = self.frame = []
        blocks = fn.blocks
        blk = blocks[0]
        prev = 0
        depth = len(self.stack)
        if depth > 900:
            raise PathEnd("unsupported", "call depth")
        self.stack.append(fn.name)
        steps = 0
        try:
            while True:
                if blk.phis:
                    lst = blk.phis[prev]
                    if len(lst) == 1:
                        d, s = lst[0]
                        R[d] = R[s]
                    else:
                        vals = [R[s] for d, s in lst]
                        for (d, s), v in zip(lst, vals):
                            R[d] = v
                for f in blk.code:
                    f(R)
                steps += blk.n
                if steps > 20000:
                    self.steps += steps
                    steps = 0
                    if self.steps > self.budget:
                        raise PathEnd("budget", "instruction budget exceeded")
                r = blk.term(R)
                if type(r) is tuple:
                    return r[0]
                prev = blk.label
                blk = blocks[r]
        finally:
            self.steps += steps
            self.frame = saved
            objs = self.objs
            for i in frame:
                objs.pop(i, None)
            self.stack.pop()

    # ------------------------------------------------------------------ driver
    def explore(self, body, finish=None):
        """body(ex) -> value runs one path from a fresh state; finish(ex, value) extracts outputs. Yields Paths."""
        self.todo = [[]]
        self.npaths = 0
        self.mod.ex = self
        while self.todo:
            self.prefix = self.todo.pop()
            self.taken = []
            self.reset()
            p = Path()
            self.npaths += 1
            if self.npaths > self.max_paths:
                p.outcome, p.detail = "unsupported", "more than %d paths" % self.max_paths
                p.conds = []
                yield p
                return
            try:
                self.run_ctors()
                p.ret = body(self)
                p.outcome = "ret"
                if finish:
                    p.out = finish(self, p.ret)
            except CxxThrow as e:
                p.outcome = "throw"
                p.detail = e.ti
                p.msg = getattr(e, "msg", "")
                p.ret = None
                if finish:
                    try:
                        p.out = finish(self, None)
                    except PathEnd as e2:
                        p.outcome, p.detail = e2.kind, e2.msg
            except PathEnd as e:
                if e.kind == "infeasible":
                    continue
                p.outcome = e.kind
                p.detail = e.msg
                p.where = list(self.stack)
            p.conds = list(self.conds)
            p.leaks = self.unreachable() if p.outcome in ("ret", "throw") else []
            p.events = self.events
            p.userdata = self.userdata
            p.touched, p.written, p.races = self.touched, self.written, self.races
            self.instrs += self.steps
            yield p

    def boot(self, fn):
        """Runs entry point fn (no symbolic input), once per module: later paths start from a copy of the memory it leaves behind."""
        boots = self.mod.__dict__.setdefault("boots", {})
        if fn not in boots:
            i = self.alloc(8, "input")
            self.call(fn, [i, i, i, i])
            if self.conds or self.events or self.taken:
                raise PathEnd("unsupported", "set-up depends on symbolic values")
            for o in self.objs.values():
                if o.kind == "heap":
                    o.kind = "static-heap"
            boots[fn] = ({k: (o, list(o.data)) for k, o in self.objs.items()}, self.nextid)
        img, self.nextid = boots[fn]
        self.objs = {}
        for k, (o, data) in img.items():
            if o.const:
                self.objs[k] = o
                continue
            c = Obj(o.id, o.size, o.kind, o.name, o.const)
            c.data = list(data)
            self.objs[k] = c

    def run_ctors(self):
        g = self.mod.m.globals.get("llvm.global_ctors")
        if not g:
            return
        if not hasattr(self.mod, "ctors"):
            self.mod.ctors = re.findall(r'ptr @("[^"]*"|[-\w.$]+), ptr (?:null|@)', g)
        for c in self.mod.ctors:
            self.call(c.strip('"'), [])
        for i, o in list(self.objs.items()):
            if o.kind == "heap":
                o.kind = "static-heap"


# ---------------------------------------------------------------------- models of external functions

def _new(ex, a):
    n = ex.concrete(a[0], 64)
    if ex.fault is not None and ex.armed:
        ex.nalloc += 1
        if ex.decide(mk("icmp", ("eq", ex.fault, ex.nalloc), 1)):
            ex.throw_std("_ZTISt9bad_alloc")
    if n > (1 << 28):
        if n >= (1 << 63):
            ex.throw_std("_ZTISt20bad_array_new_length" if n == 2**64 - 1 else "_ZTISt9bad_alloc")
        ex.throw_std("_ZTISt9bad_alloc")
    return ex.alloc(n, "heap")


def _malloc(ex, a):
    n = ex.concrete(a[0], 64)
    if n > (1 << 28):
        return 0
    return ex.alloc(n, "heap")


def _delete(ex, a):
    ex.free(a[0])


def _realloc(ex, a):
    if a[0] == 0:
        return _malloc(ex, a[1:])
    o, _ = ex.obj(a[0], 0)
    p = _malloc(ex, a[1:])
    ex.memcpy(p, a[0], min(o.size, ex.concrete(a[1], 64)))
    ex.free(a[0])
    return p


def _calloc(ex, a):
    n = ex.concrete(a[0], 64) * ex.concrete(a[1], 64)
    p = _malloc(ex, [n])
    ex.memset(p, 0, n)
    return p


def _memcmp(ex, a):
    n = ex.concrete(a[2], 64)
    x = ex.rbytes(a[0], n)
    y = ex.rbytes(a[1], n)
    return 0 if x == y else (1 if x > y else 2**32 - 1)


def _strlen(ex, a):
    return len(ex.cstr(a[0]))


def _strcmp(ex, a):
    x, y = ex.cstr(a[0]), ex.cstr(a[1])
    return 0 if x == y else (1 if x > y else 2**32 - 1)


def _memchr(ex, a):
    b = ex.rbytes(a[0], a[2])
    k = b.find(bytes([a[1] & 255]))
    return 0 if k < 0 else a[0] + k


def _hash_bytes(ex, a):
    s = ex.rbytes(a[0], a[1])
    m = ex.hash_model
    if m == "collide":
        return 42
    if m == "sum":
        return sum(s) & (2**64 - 1)
    h = 0xcbf29ce484222325
    for b in s:
        h = ((h ^ b) * 0x100000001b3) & (2**64 - 1)
    if m == "rev":
        h = (~h) & (2**64 - 1)
    return h


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 257, 337, 439, 571, 743, 971, 1259, 1637,
          2129, 2777, 3607, 4703, 6113, 7949]


def _next_bkt(ex, a):
    """std::__detail::_Prime_rehash_policy::_M_next_bkt(size_t): any value >= n will do for the caller."""
    this, n = a[0], ex.concrete(a[1], 64)
    fast = [2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13]
    if n < len(fast):
        r = 1 if n == 0 else fast[n]
    else:
        r = next(p for p in PRIMES if p >= n)
    ml = terms.constval(ex.load(this, ir.F32))
    ex.store(this + 8, ("i", 64), int(math.floor(r * ml)) if n else 0)
    return r


def _need_rehash(ex, a):
    this = a[0]
    nb, ne, ni = (ex.concrete(x, 64) for x in a[1:4])
    ml = terms.constval(ex.load(this, ir.F32))
    nr = ex.load(this + 8, ("i", 64))
    if ne + ni > nr:
        minb = max(ne + ni, 11 if nr == 0 else 0) / ml
        if minb >= nb:
            return (1, _next_bkt(ex, [this, max(int(minb) + 1, nb * 2)]))
        ex.store(this + 8, ("i", 64), int(math.floor(nb * ml)))
        return (0, 0)
    return (0, 0)


def _exc_alloc(ex, a):
    return ex.alloc(max(16, ex.concrete(a[0], 64)), "exc")


def _exc_free(ex, a):
    ex.objs.pop(a[0] >> SHIFT, None)


def _throw(ex, a):
    e = CxxThrow(a[0], ex.mod.gnames.get(a[1] >> SHIFT, "?"))
    e.msg = ex.userdata.get(("what", a[0]), "")
    ex.exceptions[a[0]] = e
    raise e


def _begin_catch(ex, a):
    ex.caught.append(ex.exceptions[a[0]])
    return a[0]


def _end_catch(ex, a):
    ex.caught.pop()


def _rethrow(ex, a):
    raise ex.caught[-1]


def _exc_ctor_cstr(ex, a):
    ex.userdata[("what", a[0])] = ex.cstr(a[1]).decode("latin1")
    ex.obj(a[0], 16, True)


def _exc_ctor_str(ex, a):
    p = ex.load(a[1], ir.PTR)
    n = ex.load(a[1] + 8, ("i", 64))
    ex.userdata[("what", a[0])] = ex.rbytes(p, n).decode("latin1")


def _nop(ex, a):
    return 0


def _throw_fn(ti):
    def f(ex, a):
        msg = ""
        if a and type(a[0]) is int and a[0]:
            try:
                msg = ex.cstr(a[0]).decode("latin1")
            except PathEnd:
                pass
        ex.throw_std(ti, msg)
    return f


def _assert_fail(ex, a):
    raise PathEnd("assert", ex.cstr(a[0]).decode("latin1"))


def _abort(kind, msg):
    def f(ex, a):
        raise PathEnd(kind, msg)
    return f


def math_call(name):
    def f(ex, a):
        a = [mk("undef", ("undef",), "d") if x is UNDEF else x for x in a]
        return mk("call", (name,) + tuple(a), a[0].sort)
    return f


def _ovf(op, signed):
    def f(ex, a):
        w = None
        x, y = a[0], a[1]
        if type(x) is not int or type(y) is not int:
            raise PathEnd("unsupported", "overflow intrinsic on symbolic values")
        return (op, signed, x, y)
    return f


def _nt(ex, a):
    raise PathEnd("abort", "std::terminate")


EXT = {
    "_Znwm": _new, "_Znam": _new, "malloc": _malloc, "_ZdlPv": _delete, "_ZdlPvm": _delete, "_ZdaPv": _delete,
    "_ZdaPvm": _delete, "free": _delete, "realloc": _realloc, "calloc": _calloc,
    "_ZnwmSt11align_val_t": _new, "_ZdlPvSt11align_val_t": _delete, "_ZdlPvmSt11align_val_t": _delete,
    "_ZnwmRKSt9nothrow_t": _malloc,
    "memcmp": _memcmp, "bcmp": _memcmp, "strlen": _strlen, "strcmp": _strcmp, "memchr": _memchr,
    "memcpy": lambda ex, a: (ex.memcpy(a[0], a[1], a[2]), a[0])[1],
    "memmove": lambda ex, a: (ex.memcpy(a[0], a[1], a[2], "memmove"), a[0])[1],
    "memset": lambda ex, a: (ex.memset(a[0], a[1], a[2]), a[0])[1],
    "_ZSt11_Hash_bytesPKvmm": _hash_bytes,
    "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": _next_bkt,
    "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": _need_rehash,
    "__cxa_allocate_exception": _exc_alloc, "__cxa_free_exception": _exc_free, "__cxa_throw": _throw,
    "__cxa_begin_catch": _begin_catch, "__cxa_end_catch": _end_catch, "__cxa_rethrow": _rethrow,
    "__cxa_get_exception_ptr": lambda ex, a: a[0],
    "_ZSt9terminatev": _nt, "abort": _abort("abort", "abort()"), "exit": _abort("abort", "exit()"),
    "__cxa_pure_virtual": _abort("error", "pure virtual call"),
    "__assert_fail": _assert_fail,
    "_ZSt21__glibcxx_assert_failPKciS0_S0_": lambda ex, a: (_ for _ in ()).throw(
        PathEnd("error", "libstdc++ assertion: " + (ex.cstr(a[3]).decode() if a[3] else ""))),
    "_ZSt20__throw_length_errorPKc": _throw_fn("_ZTISt12length_error"),
    "_ZSt20__throw_out_of_rangePKc": _throw_fn("_ZTISt12out_of_range"),
    "_ZSt24__throw_out_of_range_fmtPKcz": _throw_fn("_ZTISt12out_of_range"),
    "_ZSt19__throw_logic_errorPKc": _throw_fn("_ZTISt11logic_error"),
    "_ZSt21__throw_runtime_errorPKc": _throw_fn("_ZTISt13runtime_error"),
    "_ZSt24__throw_invalid_argumentPKc": _throw_fn("_ZTISt16invalid_argument"),
    "_ZSt17__throw_bad_allocv": _throw_fn("_ZTISt9bad_alloc"),
    "_ZSt28__throw_bad_array_new_lengthv": _throw_fn("_ZTISt20bad_array_new_length"),
    "_ZSt25__throw_bad_function_callv": _throw_fn("_ZTISt17bad_function_call"),
    "_ZSt16__throw_bad_castv": _throw_fn("_ZTISt8bad_cast"),
    "__cxa_guard_acquire": lambda ex, a: _guard(ex, a), "__cxa_guard_release": lambda ex, a: _guard_done(ex, a),
    "__cxa_guard_abort": lambda ex, a: _guard_undo(ex, a), "pthread_mutex_lock": lambda ex, a: _lock(ex, a),
    "pthread_mutex_unlock": lambda ex, a: _unlock(ex, a),
    "__cxa_thread_atexit": _nop, "__cxa_thread_atexit_impl": _nop, "__cxa_atexit": _nop, "_ZNSt8ios_base4InitC1Ev": _nop, "_ZNSt8ios_base4InitD1Ev": _nop,
    "_ZNSt9exceptionD2Ev": _nop, "_ZNSt9exceptionD1Ev": _nop,
    "__errno_location": lambda ex, a: ex.userdata.setdefault("errno", ex.alloc(4, "static-heap")),
}
for _e in ("13runtime_error", "11logic_error", "12length_error", "12out_of_range", "16invalid_argument", "12domain_error",
           "11range_error", "14overflow_error"):
    for _c in ("C1", "C2"):
        EXT["_ZNSt%s%sEPKc" % (_e, _c)] = _exc_ctor_cstr
        EXT["_ZNSt%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (_e, _c)] = _exc_ctor_str
        EXT["_ZNSt%s%sERKS_" % (_e, _c)] = _nop
    for _c in ("D0", "D1", "D2"):
        EXT["_ZNSt%s%sEv" % (_e, _c)] = _nop
for _m in MATH1 | MATH2 | MATH3:
    EXT[_m] = math_call(_m)
    EXT[_m + "f"] = math_call(_m)
    EXT[_m + "l"] = math_call(_m)


def _guard(ex, a):
    if ex.load(a[0], ("i", 8)) == 1:
        return 0
    ex.ordered += 1
    return 1


def _guard_done(ex, a):
    ex.store(a[0], ("i", 8), 1)
    ex.ordered -= 1


def _guard_undo(ex, a):
    ex.ordered -= 1


def _lock(ex, a):
    ex.ordered += 1
    return 0


def _unlock(ex, a):
    ex.ordered -= 1
    return 0


INTRIN_MATH = {"sqrt": "sqrt", "pow": "pow", "sin": "sin", "cos": "cos", "exp": "exp", "exp2": "exp2", "log": "log",
               "log2": "log2", "log10": "log10", "fabs": "fabs", "floor": "floor", "ceil": "ceil", "trunc": "trunc",
               "rint": "rint", "nearbyint": "nearbyint", "round": "round", "fma": "fma", "copysign": "copysign",
               "minnum": "fmin", "maxnum": "fmax", "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan",
               "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "exp10": "exp10", "atan2": "atan2"}


def _powi(ex, a):
    if type(a[1]) is int:
        return mk("call", ("pow", a[0], fconst(float(terms.sgn(a[1], 32)))), a[0].sort)
    return mk("call", ("pow", a[0], mk("sitofp", (a[1],), a[0].sort)), a[0].sort)


def _to_long(fn):
    def f(ex, a):
        x = a[0]
        if x is UNDEF:
            return UNDEF
        r = mk("call", (fn, x), x.sort)
        if x.isconst:
            v = terms.evaluate(r, {})
            return UNDEF if v != v or math.isinf(v) else int(v) & (2 ** 64 - 1)
        return mk("fptosi", (r,), 64)
    return f


for _m, _f in (("round", "lround"), ("round", "llround"), ("rint", "lrint"), ("rint", "llrint")):
    EXT[_f] = _to_long(_m)


def find_model(name):
    h = EXT.get(name)
    if h is not None:
        return h
    if name.startswith("_ZSt8__hypot3IdET_") or name.startswith("_ZSt8__hypot3IfET_"):
        return lambda ex, a: mk("call", ("hypot3",) + tuple(mk("undef", ("undef",), "d") if x is UNDEF else x for x in a),
                                a[0].sort if isinstance(a[0], Node) else "d")
    if not name.startswith("llvm."):
        return None
    parts = name.split(".")
    b = parts[1]
    if b == "memcpy":
        return lambda ex, a: ex.memcpy(a[0], a[1], a[2])
    if b == "memmove":
        return lambda ex, a: ex.memcpy(a[0], a[1], a[2], "memmove")
    if b == "memset":
        return lambda ex, a: ex.memset(a[0], a[1], a[2])
    if b == "expect" or b == "threadlocal":
        return lambda ex, a: a[0]
    if b in INTRIN_MATH:
        return math_call(INTRIN_MATH[b])
    if b in ("lround", "llround", "lrint", "llrint"):
        return _to_long("round" if "round" in b else "rint")
    if b == "powi":
        return _powi
    if b == "fmuladd":
        return lambda ex, a: fbin("fadd", fbin("fmul", a[0], a[1], a[0].sort), a[2], a[0].sort)
    if b == "eh" and parts[2] == "typeid":
        return lambda ex, a: ex.typeid(a[0])
    if b == "is" and parts[2] == "constant":
        return _nop
    if b == "invariant" or b == "stacksave":
        return _nop
    if b in ("stackrestore", "va_end"):
        return _nop
    if b == "trap" or b == "ubsantrap":
        return _abort("error", "trap")
    if b == "objectsize":
        return lambda ex, a: 2**64 - 1
    if b in ("smax", "smin", "umax", "umin", "abs"):
        w = int(parts[2][1:])

        def f(ex, a):
            x, y = a[0], a[1]
            if b == "abs":
                c = icmp(ex, "slt", x, 0, w)
                return ibin(ex, "sub", 0, x, w) if ex.decide(c) else x
            c = icmp(ex, b[0] + ("gt" if b.endswith("max") else "lt"), x, y, w)
            if c is UNDEF:
                return UNDEF
            return x if ex.decide(c) else y
        return f
    if len(parts) > 3 and parts[2] == "with" and parts[3] == "overflow":
        w = int(parts[4][1:])
        signed = b[0] == "s"
        op = b[1:]

        def f(ex, a):
            x, y = a[0], a[1]
            if type(x) is not int or type(y) is not int:
                raise PathEnd("unsupported", "overflow intrinsic on symbolic values")
            if signed:
                x, y = terms.sgn(x, w), terms.sgn(y, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            m = r & ((1 << w) - 1)
            return (m, int((terms.sgn(m, w) if signed else m) != r))
        return f
    if b in ("ctlz", "cttz", "ctpop"):
        w = int(parts[2][1:])

        def f(ex, a):
            x = a[0]
            if type(x) is not int:
                raise PathEnd("unsupported", name)
            if b == "ctpop":
                return bin(x).count("1")
            if x == 0:
                return w
            return w - x.bit_length() if b == "ctlz" else (x & -x).bit_length() - 1
        return f
    if b in ("usub", "uadd") and parts[2] == "sat":
        w = int(parts[3][1:])

        def f(ex, a):
            x, y = a[0], a[1]
            if type(x) is not int or type(y) is not int:
                raise PathEnd("unsupported", name)
            return max(0, x - y) if b == "usub" else min((1 << w) - 1, x + y)
        return f
    if b == "is" and parts[2] == "fpclass":
        return _fpclass
    return None


def _fpclass(ex, a):
    x, mask = a[0], a[1]
    if mask == 3:
        return fcmp("uno", x, x)
    if mask == 0x3fc:
        return fcmp("ord", x, x)
    raise PathEnd("unsupported", "is.fpclass mask %r" % mask)
