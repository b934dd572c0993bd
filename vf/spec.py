"""Oracle: values and derivatives from calculus, as terms over the operands' entries (independent of /repo's code)."""
from fractions import Fraction

import mpmath as mp

from . import terms
from .terms import Node, mk, fconst


class X:
    """A real-valued expression (wraps a term)."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n if isinstance(n, Node) else fconst(float(n))

    def __add__(self, o):
        if iszero(o):
            return self
        if iszero(self):
            return wrap(o)
        return X(mk("fadd", (self.n, wrap(o).n), "d"))

    __radd__ = __add__

    def __sub__(self, o):
        if iszero(o):
            return self
        return X(mk("fsub", (self.n, wrap(o).n), "d"))

    def __rsub__(self, o):
        return wrap(o) - self

    def __mul__(self, o):
        o = wrap(o)
        if iszero(self) or iszero(o):
            return X(0.0)
        if isone(self):
            return o
        if isone(o):
            return self
        return X(mk("fmul", (self.n, o.n), "d"))

    def __rmul__(self, o):
        return wrap(o) * self

    def __truediv__(self, o):
        return X(mk("fdiv", (self.n, wrap(o).n), "d"))

    def __rtruediv__(self, o):
        return wrap(o) / self

    def __neg__(self):
        return X(0.0) if iszero(self) else X(mk("fneg", (self.n,), "d"))

    def cmp(self, pred, o):
        return mk("fcmp", (pred, self.n, wrap(o).n), 1)


def wrap(o):
    return o if isinstance(o, X) else X(o)


def iszero(o):
    if isinstance(o, X):
        return o.n.op == "const" and terms.constval(o.n) == 0
    return not isinstance(o, Node) and o == 0


def isone(o):
    return isinstance(o, X) and o.n.op == "const" and terms.constval(o.n) == 1


def var(name):
    return X(terms.fvar(name))


def call(f, *a):
    return X(mk("call", (f,) + tuple(wrap(x).n for x in a), "d"))


def gt(a, b=0):
    return wrap(a).cmp("ogt", b)


def lt(a, b=0):
    return wrap(a).cmp("olt", b)


def ne(a, b=0):
    return wrap(a).cmp("une", b)


def b_or(a, b):
    return mk("or", (a, b), 1)


def b_and(a, b):
    return mk("and", (a, b), 1)


LN2 = call("log", 2.0)
LN10 = call("log", 10.0)


def inside(x):
    return [gt(x, -1.0), lt(x, 1.0)]


# name -> function of x returning (f, f', f'', domain)
def f_sqrt(x):
    q = call("sqrt", x)
    return q, 1 / (2 * q), -1 / (4 * x * q), [gt(x)]


def f_cbrt(x):
    c = call("cbrt", x)
    return c, 1 / (3 * c * c), -2 / (9 * c * c * c * c * c), [ne(x)]


def f_reciprocal(x):
    return 1 / x, -1 / (x * x), 2 / (x * x * x), [ne(x)]


def f_sin(x):
    return call("sin", x), call("cos", x), -call("sin", x), []


def f_cos(x):
    return call("cos", x), -call("sin", x), -call("cos", x), []


def f_tan(x):
    t, c = call("tan", x), call("cos", x)
    return t, 1 / (c * c), 2 * t / (c * c), [ne(c)]


def f_asin(x):
    w = 1 - x * x
    q = call("sqrt", w)
    return call("asin", x), 1 / q, x / (w * q), inside(x)


def f_acos(x):
    w = 1 - x * x
    q = call("sqrt", w)
    return call("acos", x), -1 / q, -x / (w * q), inside(x)


def f_atan(x):
    w = 1 + x * x
    return call("atan", x), 1 / w, -2 * x / (w * w), []


def f_sinh(x):
    return call("sinh", x), call("cosh", x), call("sinh", x), []


def f_cosh(x):
    return call("cosh", x), call("sinh", x), call("cosh", x), []


def f_tanh(x):
    t, c = call("tanh", x), call("cosh", x)
    return t, 1 / (c * c), -2 * t / (c * c), []


def f_asinh(x):
    w = 1 + x * x
    q = call("sqrt", w)
    return call("asinh", x), 1 / q, -x / (w * q), []


def f_acosh(x):
    w = x * x - 1
    q = call("sqrt", w)
    return call("acosh", x), 1 / q, -x / (w * q), [gt(x, 1.0)]


def f_atanh(x):
    w = 1 - x * x
    return call("atanh", x), 1 / w, 2 * x / (w * w), inside(x)


def f_exp(x):
    e = call("exp", x)
    return e, e, e, []


def f_log(x):
    return call("log", x), 1 / x, -1 / (x * x), [gt(x)]


def f_log2(x):
    return call("log2", x), 1 / (x * LN2), -1 / (x * x * LN2), [gt(x)]


def f_log10(x):
    return call("log10", x), 1 / (x * LN10), -1 / (x * x * LN10), [gt(x)]


def f_abs_pos(x):
    return x, X(1.0), X(0.0), [gt(x)]


def f_abs_neg(x):
    return -x, X(-1.0), X(0.0), [lt(x)]


def f_neg(x):
    return -x, X(-1.0), X(0.0), []


UNARY = {"sqrt": [f_sqrt], "cbrt": [f_cbrt], "reciprocal": [f_reciprocal], "sin": [f_sin], "cos": [f_cos], "tan": [f_tan],
         "asin": [f_asin], "acos": [f_acos], "atan": [f_atan], "sinh": [f_sinh], "cosh": [f_cosh], "tanh": [f_tanh],
         "asinh": [f_asinh], "acosh": [f_acosh], "atanh": [f_atanh], "exp": [f_exp], "log": [f_log], "log2": [f_log2],
         "log10": [f_log10], "abs": [f_abs_pos, f_abs_neg]}


def f_pow(s):
    def f(x):
        return (call("pow", x, s), s * call("pow", x, s - 1), s * (s - 1) * call("pow", x, s - 2), [gt(x)])
    return f


def ipow(x, k):
    if k < 0:
        return 1 / ipow(x, -k)
    if k == 0:
        return X(1.0)
    r = x
    for _ in range(k - 1):
        r = r * x
    return r


def f_powi(k):
    """x^k for an integer k; for k >= 0 the domain includes zero."""
    def f(x):
        d1 = k * ipow(x, k - 1) if k != 0 else X(0.0)
        d2 = k * (k - 1) * ipow(x, k - 2) if k not in (0, 1) else X(0.0)
        return ipow(x, k), wrap(d1), wrap(d2), ([] if k >= 0 else [ne(x)])
    return f


def f_log_b(s):
    def f(x):
        l = call("log", s)
        return call("log", x) / l, 1 / (x * l), -1 / (x * x * l), [gt(x), gt(s), ne(s, 1.0)]
    return f


# binary: (f, [fa, fb], {(0,0):faa, (0,1):fab, (1,1):fbb}, domain)
def g_add(a, b):
    return a + b, [X(1.0), X(1.0)], {}, []


def g_sub(a, b):
    return a - b, [X(1.0), X(-1.0)], {}, []


def g_mul(a, b):
    return a * b, [b, a], {(0, 1): X(1.0)}, []


def g_div(a, b):
    return (a / b, [1 / b, -a / (b * b)], {(0, 1): -1 / (b * b), (1, 1): 2 * a / (b * b * b)}, [ne(b)])


def g_atan2(a, b):
    w = a * a + b * b
    return (call("atan2", a, b), [b / w, -a / w],
            {(0, 0): -2 * a * b / (w * w), (0, 1): (a * a - b * b) / (w * w), (1, 1): 2 * a * b / (w * w)},
            [b_or(gt(b), ne(a))])


def g_hypot(*v):
    w = v[0] * v[0]
    for x in v[1:]:
        w = w + x * x
    h = call("hypot" if len(v) == 2 else "hypot3", *v)
    h3 = h * h * h
    d2 = {}
    for i in range(len(v)):
        for j in range(i, len(v)):
            if i == j:
                o = [x * x for k, x in enumerate(v) if k != i]
                s = o[0]
                for x in o[1:]:
                    s = s + x
                d2[i, j] = s / h3
            else:
                d2[i, j] = -(v[i] * v[j]) / h3
    return h, [x / h for x in v], d2, [ne(w)]


def length(order, n):
    return 1 + n if order == 1 else (n + 1) * (n + 2) // 2


def hindex(n, i, j):
    """Position of H[i][j] in the packed data: rows of the upper triangle, one after the other."""
    i, j = min(i, j), max(i, j)
    return 1 + n + sum(n - k for k in range(i)) + (j - i)


def operand(name, order, n):
    return [var("%s%d" % (name, k)) for k in range(length(order, n))]


def chain(order, n, ops, f, d1, d2):
    """Entries of the result for operand entry lists ops and partial derivatives d1, d2."""
    out = [f]
    L = length(order, n)
    for k in range(1, L):
        r = X(0.0)
        for o, d in zip(ops, d1):
            r = r + d * o[k]
        out.append(r)
    if order == 2:
        for i in range(n):
            for j in range(i, n):
                k = hindex(n, i, j)
                r = out[k]
                for (p, q), d in d2.items():
                    gp, gq = ops[p], ops[q]
                    if p == q:
                        r = r + d * (gp[1 + i] * gp[1 + j])
                    else:
                        r = r + d * (gp[1 + i] * gq[1 + j] + gq[1 + i] * gp[1 + j])
                out[k] = r
    return out


# ---------------------------------------------------------------- mpmath evaluation of terms

mp.mp.dps = 40


class MpError(Exception):
    pass


def mp_eval(node, env, memo=None):
    memo = {} if memo is None else memo
    stack = [node]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Node) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        memo[n.id] = _mp1(n, [memo[a.id] if isinstance(a, Node) else a for a in n.args], env)
    return memo[node.id]


def _mp1(n, a, env):
    op = n.op
    if op == "const":
        v = terms.constval(n)
        if v != v or abs(v) == float("inf"):
            return mp.mpf(v)
        from .real import wellknown, const_fraction
        c = wellknown(n, v)
        if c:
            w = {"ln2": mp.log(2), "ln10": mp.log(10), "log2e": 1 / mp.log(2), "log10e": 1 / mp.log(10), "pi": mp.pi,
                 "pi2": mp.pi / 2}[c]
            return w if v > 0 else -w
        q = const_fraction(v, n.sort)
        return mp.mpf(q.numerator) / q.denominator
    if op == "var":
        if isinstance(n.sort, int):
            return int(env[n.args[0]]) & (1 << n.sort) - 1
        return mp.mpf(env[n.args[0]])
    if op == "fadd":
        return a[0] + a[1]
    if op == "fsub":
        return a[0] - a[1]
    if op == "fmul":
        return a[0] * a[1]
    if op == "fdiv":
        if a[1] == 0:
            raise MpError("division by zero")
        return a[0] / a[1]
    if op == "fneg":
        return -a[0]
    if op in ("fpext", "fptrunc"):
        return a[0]
    if op == "call":
        f, x = a[0], a[1:]
        try:
            if f == "cbrt":
                return mp.cbrt(x[0]) if x[0] >= 0 else -mp.cbrt(-x[0])
            if f == "pow":
                if x[0] == 0 and x[1] < 0:
                    raise MpError("pole")
                r = mp.power(x[0], x[1])
            elif f == "log2":
                r = mp.log(x[0]) / mp.log(2)
            elif f in ("log10", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh",
                       "acosh", "atanh", "exp", "floor", "ceil", "atan2", "expm1", "log1p"):
                r = getattr(mp, f)(*x)
            elif f == "fabs":
                r = abs(x[0])
            elif f == "trunc":
                r = mp.floor(x[0]) if x[0] >= 0 else mp.ceil(x[0])
            elif f == "round":
                r = mp.floor(x[0] + 0.5) if x[0] >= 0 else mp.ceil(x[0] - 0.5)
            elif f in ("rint", "nearbyint"):
                r = mp.nint(x[0])
            elif f in ("hypot", "hypot3"):
                r = mp.sqrt(sum(t * t for t in x))
            elif f == "fmin":
                r = min(x)
            elif f == "fmax":
                r = max(x)
            elif f == "fma":
                r = x[0] * x[1] + x[2]
            elif f == "exp2":
                r = mp.power(2, x[0])
            elif f == "copysign":
                r = abs(x[0]) if x[1] >= 0 else -abs(x[0])
            else:
                raise MpError("function " + f)
        except (ValueError, ZeroDivisionError) as e:
            raise MpError(str(e))
        if isinstance(r, mp.mpc):
            raise MpError("complex value")
        return r
    if op == "fcmp":
        return int(terms.fcmp_eval(a[0], a[1], a[2]))
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op in ("fptosi", "fptoui"):
        return int(a[0]) & (1 << n.sort) - 1
    if op in ("sitofp", "uitofp"):
        return mp.mpf(terms.sgn(a[0], n.args[0].sort) if op == "sitofp" else a[0])
    if op == "ite":
        return a[1] if a[0] else a[2]
    if isinstance(n.sort, int) and all(isinstance(x, (int, str)) for x in a):
        try:
            return terms._ev1(n, a, env)
        except terms.EvalError as e:
            raise MpError(str(e))
    raise MpError("operation " + op)


def selftest(points=3, seed=1):
    """Compares the oracle's derivatives with numeric differentiation of its values. Returns the number of comparisons."""
    import random
    rnd = random.Random(seed)
    cnt = 0
    x, y, z, s = var("x"), var("y"), var("z"), var("s")

    def ok(dom, env):
        try:
            return all(mp_eval(d, env) for d in dom)
        except MpError:
            return False

    def close(a, b):
        return abs(a - b) < mp.mpf(10) ** -12 * (1 + abs(b))
    un = [(k, f) for k, l in UNARY.items() for f in l]
    un += [("powi%d" % k, f_powi(k)) for k in range(-3, 6)] + [("pow", f_pow(s)), ("log_b", f_log_b(s)), ("neg", f_neg)]
    for name, f in un:
        v, d1, d2, dom = f(x)
        done = 0
        for _ in range(400):
            env = {"x": rnd.uniform(-3, 3), "s": rnd.uniform(0.2, 3)}
            if not ok(dom, env) or not ok(dom, {**env, "x": env["x"] * 1.01}) or not ok(dom, {**env, "x": env["x"] * 0.99}):
                continue
            g = lambda t, e=env: mp_eval(v.n, {**e, "x": t})
            assert close(mp_eval(d1.n, env), mp.diff(g, env["x"])), name
            assert close(mp_eval(d2.n, env), mp.diff(g, env["x"], 2)), name
            done += 1
            cnt += 2
            if done == points:
                break
        assert done, name
    for name, f, vs in (("add", g_add, "xy"), ("sub", g_sub, "xy"), ("mul", g_mul, "xy"), ("div", g_div, "xy"),
                        ("atan2", g_atan2, "xy"), ("hypot", g_hypot, "xy"), ("hypot3", g_hypot, "xyz")):
        v, d1, d2, dom = f(*[var(c) for c in vs])
        for _ in range(points):
            env = {c: rnd.uniform(0.3, 3) * rnd.choice((-1, 1)) for c in "xyz"}
            if not ok(dom, env):
                continue
            g = lambda *t, e=env: mp_eval(v.n, {**e, **dict(zip(vs, t))})
            p = tuple(env[c] for c in vs)
            for i in range(len(vs)):
                k = tuple(int(q == i) for q in range(len(vs)))
                assert close(mp_eval(d1[i].n, env), mp.diff(g, p, k)), name
                for j in range(i, len(vs)):
                    k2 = tuple((q == i) + (q == j) for q in range(len(vs)))
                    e = mp_eval(d2[i, j].n, env) if (i, j) in d2 else 0
                    assert close(e, mp.diff(g, p, k2)), name
                    cnt += 1
                cnt += 1
    return cnt
