"""Problem builders for harness/py.cpp: calls through the Python bindings (the repository's sources against stub/pybind11)."""
from . import build, core, dd, eqv, ss, st
from .spec import X, hindex, length, var
from .terms import fconst

STRIDE = dd.STRIDE
NONE, FLT, INT, BOL, STR, OBJ, SEQ, MAT, VIEW, LIST, DICT, TUP, NOTIMPL, TYPEERR = range(14)
STUB = ["-I" + build.HERE + "/harness/stub"]


def words(s, n=4):
    b = s.encode().ljust(8 * n, b"\0")
    assert len(b) == 8 * n and b[-1] == 0, s
    return [int.from_bytes(b[8 * i:8 * i + 8], "little") for i in range(n)]


def O(order, n, at, kw=None): return (order - 1, n, at, 0, kw)
def F(at, kw=None): return (2, 0, at, 0, kw)
def I(v, kw=None): return (3, 0, 0, v, kw)
def B(v, kw=None): return (4, 0, 0, v, kw)
def S(n, at, kw=None): return (5, n, at, 0, kw)
def M(r, c, at, kw=None): return (6, r, at, c, kw)
def Str(which, kw=None): return (7 + ("full", "zeros", "x").index(which), 0, 0, 0, kw)
def Same(q, kw=None): return (10, 0, 0, q, kw)
def Tup(m, n, at): return (12, n, at, m, None)


class Unit(dd.Unit):
    """One bound class: order, fixed size or -1, size of the operands."""

    def __init__(self, order, ssize, n):
        dd.Unit.__init__(self, order, ssize, n)
        self.cls = ("D" * order) + (str(ssize) if ssize >= 0 else "") + "Scalar"
        f = "bind_ddscalar_%sd" % (ssize if ssize >= 0 else "x")
        self.pydefs = ["HJ_SIZE=%d" % ssize, 'HJ_BIND="%s/python/src/%s.cpp"' % (build.REPO, f), "HJ_INIT=" + f]

    def prob(self, entry, name, args, ins, exp=None, iexp=None, kind="m", mode="fp", dom=(), want="ret", inplace="", refl="", cls=None, **kw):
        pos = next((q for q, a in enumerate(args) if a[4]), len(args))
        w = [len(args), pos, ord(kind) if isinstance(kind, str) else kind] + words(name) + words(self.cls if cls is None else cls)
        for a in args:
            w += [a[0], a[1], a[2], a[3]] + words(a[4] or "")
        if entry == "binop":
            w = w[:27] + words(inplace) + words(refl)
        p = core.Problem("Python %s%s(%s) on %s" % ("" if kind != "s" else "static ", inplace or name, ", ".join(
            (a[4] + "=" if a[4] else "") + show(a) for a in args), self.cls + (" n=%d" % self.n if self.ssize < 0 else "")),
            "py.cpp", self.pydefs, entry, ins, w, dom, exp, iexp, want=want, mode=mode, extra=STUB, leaks=False, nin=4 * STRIDE, **kw)
        p.setup, p.throw_type = "hjx_setup", None
        return p


def show(a):
    k, n, at, i, _ = a
    return ("D%d" % n, "DD%d" % n, "float", "%d" % i, ("False", "True")[i & 1], "[%d]" % n, "[%dx%d]" % (n, i), "'full'", "'zeros'", "'x'",
            "arg%d" % i, "([%d],)" % n, "(%d lists)" % i, "{}", "None")[k]


# ---------------------------------------------------------------- numeric names: (problem, reference in dd_num.cpp)

METHODS = {n: n for n in ("sqrt", "cbrt", "cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh",
                          "exp", "log", "log2", "log10", "abs", "reciprocal")}
METHODS.update({"__abs__": "abs", "arccos": "acos", "arcsin": "asin", "arctan": "atan", "arccosh": "acosh", "arcsinh": "asinh",
                "arctanh": "atanh"})
OPS = (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"))
CMP = (("__eq__", "__eq__"), ("__ne__", "__ne__"), ("__lt__", "__gt__"), ("__gt__", "__lt__"), ("__le__", "__ge__"), ("__ge__", "__le__"))
INTS = (-2, -1, 0, 1, 2, 3)


def numeric(u):
    """Yields (python problem, reference problem, output map or None, integer map)."""
    n, L = u.n, u.L
    a, b, c = (O(u.order, n, k * STRIDE) for k in range(3))
    s = F(3 * STRIDE)
    om = {k: k for k in range(L)}
    im = {0: 0, 1: 1}
    typ = {100: OBJ, 101: u.order}

    def ref(grp, fn, scalar=None, idx=(0, 0)):
        r = u.problem(grp, fn, {}, [], 0, scalar=scalar, idx=idx, operands=3)
        r.expect, r.iexpect = {}, {}
        return r

    def keep(nops):
        e, ie = u.after(nops)
        return e, {**ie, **typ}

    def call(name, args, r, nops=1, scalar=None, **kw):
        e, ie = keep(nops)
        return u.prob("call", name, args, u.ins(3, scalar), e, ie, **kw), r, om, im

    for name, fn in METHODS.items():
        yield call(name, [a], ref("FUNC", fn))
    yield call("__neg__", [a], ref("ARITH", "neg"))
    for kw in (None, "base"):
        yield call("log", [a, F(3 * STRIDE, kw)], ref("FUNC", "log_b"))
        yield call("log", [a, I(3, kw)], ref("FUNC", "log_b", fconst(3.0)))
    yield call("__pow__", [a, s], ref("FUNC", "pow"))
    for k in INTS:
        yield call("__pow__", [a, I(k)], ref("FUNC", "pow", fconst(float(k))))
        yield call("__pow__", [a, s], ref("FUNC", "pow", fconst(k / 2.0)), scalar=fconst(k / 2.0))
    for name in ("atan2", "arctan2"):
        yield call(name, [a, b], ref("FUNC", "atan2"), 2)
        yield call(name, [a, Same(0)], ref("FUNC", "atan2_aa"))
    for kind, cls in (("m", None), ("f", "")):
        yield call("hypot", [a, b], ref("FUNC", "hypot"), 2, kind=kind, cls=cls)
        yield call("hypot", [a, b, c], ref("FUNC", "hypot3"), 3, kind=kind, cls=cls)
        yield call("hypot", [a, Same(0)], ref("FUNC", "hypot_aa"), kind=kind, cls=cls)

    def op(name, args, r, after=(), inplace="", refl="", exp=None, iexp=None, maps=(om, im), **kw):
        e, ie = {}, dict(typ if iexp is None else iexp)
        for q, x in after:
            for k in range(L):
                e[STRIDE * (q + 1) + k] = x[k]
            ie[2 * (q + 1)], ie[2 * (q + 1) + 1] = n, L
        return (u.prob("binop", name, args, u.ins(3), e, ie, inplace=inplace, refl=refl, **kw), r) + maps
    A, Bv = u.a, u.b
    for py, fn in OPS:
        nm, rn, inm = "__%s__" % py, "__r%s__" % py, "__i%s__" % py
        k = {"refl": rn}
        yield op(nm, [a, b], ref("ARITH", fn), [(0, A), (1, Bv)], **k)
        yield op(nm, [a, Same(0)], ref("ARITH", fn + "_aa"), [(0, A)], **k)
        yield op(nm, [a, s], ref("ARITH", fn + "_ts"), [(0, A)], **k)
        yield op(nm, [s, b], ref2(u, "ARITH", fn + "_st"), [(1, Bv)], **k)
        yield op(nm, [a, I(3)], ref("ARITH", fn + "_ts", fconst(3.0)), [(0, A)], **k)
        yield op(nm, [I(3), b], ref2(u, "ARITH", fn + "_st", fconst(3.0)), [(1, Bv)], **k)
        yield op(nm, [a, b], ref("COMP", "i" + fn), [(1, Bv)], inplace=inm, **k)
        yield op(nm, [a, Same(0)], ref("COMP", "i%s_x" % fn), [], inplace=inm, **k)
        yield op(nm, [a, s], ref("COMP", "i%s_s" % fn), [], inplace=inm, **k)
        yield op(nm, [a, I(3)], ref("COMP", "i%s_s" % fn, fconst(3.0)), [], inplace=inm, **k)
    for i, (nm, rn) in enumerate(CMP):
        k = {"refl": rn, "iexp": {100: BOL}, "maps": ({}, {102: i})}
        yield op(nm, [a, b], ref("FUNC", "cmp"), [(0, A), (1, Bv)], **k)
        yield op(nm, [a, s], ref("FUNC", "cmp_ts"), [(0, A)], **k)
        yield op(nm, [s, b], ref2(u, "FUNC", "cmp_st"), [(1, Bv)], **k)
        yield op(nm, [a, I(3)], ref("FUNC", "cmp_ts", fconst(3.0)), [(0, A)], **k)
        yield op(nm, [I(3), b], ref2(u, "FUNC", "cmp_st", fconst(3.0)), [(1, Bv)], **k)


def ref2(u, grp, fn, scalar=None):
    """The reference with b as its only operand."""
    r = u.problem(grp, fn, {}, [], 0, scalar=scalar, operands=3)
    for k in range(u.L):
        r.ins[k] = u.b[k].n
    r.expect, r.iexpect = {}, {}
    return r


# ---------------------------------------------------------------- accessors, constructors, statics: explicit expectations

def structural(u):
    n, L, order, dyn = u.n, u.L, u.order, u.ssize < 0
    a, s = u.a, u.s
    Z, ONE = X(0.0), X(1.0)
    A0, sc = O(order, n, 0), F(3 * STRIDE)
    bv = [var("b%d" % k) for k in range(max(L, n * n, 1))]
    ins = dict(enumerate(a))
    ins[3 * STRIDE] = s
    for k, v in enumerate(bv):
        ins[STRIDE + k] = v

    def num(vals, size=n):
        return dict(enumerate(vals)), {100: OBJ, 101: order, 0: size, 1: len(vals)}

    def same(e, ie):
        e, ie = dict(e), dict(ie)
        for k in range(L):
            e[STRIDE + k] = a[k]
        ie[2], ie[3] = n, L
        return e, ie

    def flt(v): return same({0: v}, {100: FLT})
    def integer(v): return same({}, {100: INT, 102: v})
    def boolean(v): return {}, {100: BOL, 102: int(v)}
    def seq(vals, r=1): return {k: v for k, v in enumerate(vals)}, {102: len(vals)}

    def call(name, args, exp, **kw):
        return u.prob("call", name, args, ins, exp[0], exp[1], **kw)

    def get(name, exp, kind="g"):
        return call(name, [A0] if kind == "g" else [(14, 0, 0, 0, None)], exp, kind=kind)

    def rejected(name, args, kind="m", **kw):
        return call(name, args, ({}, {100: TYPEERR}), kind=kind, **kw)
    # properties
    yield get("f", flt(a[0]))
    yield get("size", integer(n))
    yield call("__len__", [A0], integer(n))
    yield get("g", same(*seq(a[1:1 + n])))
    yield get("data", same(*seq(a)))
    yield get("is_dynamic", boolean(dyn), "c")
    yield get("order", ({}, {100: INT, 102: order}), "c")
    for val, v in ((sc, s), (I(3), X(3.0))):
        yield u.prob("setprop", "f", [A0, val], ins, num([v] + a[1:])[0], {0: n, 1: L, 100: NONE}, kind="t")
    # the arrays g and data are views: writing to them writes the number
    for name, lo, cnt in (("g", 1, n), ("data", 0, L)):
        new = list(a)
        new[lo:lo + cnt] = bv[:cnt]
        e, ie = num(new)
        yield u.prob("view", name, [A0], ins, e, {0: n, 1: L, 102: cnt, 100: VIEW}, kind="g")
    # eval
    for kw in (None, "d"):
        yield call("eval", [A0, S(n, STRIDE, kw)], same({}, {100: FLT}))
    # Hessian
    ij = [(i, j) for i in st.idx_list(n, 3) for j in st.idx_list(n, 3)]
    if order == 2:
        for i, j in ij:
            k = hindex(n, i, j)
            for kr, kc in ((None, None), ("row", "col"), (None, "col")):
                yield call("h", [A0, I(i, kr), I(j, kc)], flt(a[k]))
            yield call("h", [A0, I(j, "col"), I(i, "row")], flt(a[k]))
            new = list(a)
            new[k] = s
            e = {STRIDE + q: v for q, v in enumerate(new)}
            for args in ([I(i), I(j), sc], [I(i, "row"), I(j, "col"), F(3 * STRIDE, "value")], [F(3 * STRIDE, "value"), I(j, "col"), I(i, "row")]):
                yield call("set_h", [A0] + args, (e, {100: NONE, 2: n, 3: L}))
        full = [a[hindex(n, i, j)] for i in range(n) for j in range(n)]
        upper = [a[hindex(n, i, j)] if i <= j else Z for i in range(n) for j in range(n)]
        shape = {100: MAT, 103: n, 104: n, 102: n * n}
        for args, v in (([], full), ([Str("full")], full), ([Str("full", "mode")], full), ([Str("zeros")], upper), ([Str("zeros", "mode")], upper)):
            e, ie = same(*seq(v))
            yield call("hm", [A0] + args, (e, {**ie, **shape}))
        yield call("hm", [A0, Str("x")], ({}, {}), want="throw")
        new = list(a)
        for i in range(n):
            for j in range(i, n):
                new[hindex(n, i, j)] = bv[i * n + j]
        e = {STRIDE + q: v for q, v in enumerate(new)}
        for kw in (None, "value"):
            yield call("set_hm", [A0, M(n, n, STRIDE, kw)], (e, {100: NONE, 2: n, 3: L}))
    else:
        for name, args in (("h", [I(0), I(0)]), ("set_h", [I(0), I(0), sc]), ("hm", []), ("set_hm", [M(n, n, STRIDE)])):
            yield rejected(name, [A0] + args)
    # constructors
    n0, L0 = (0, 1) if dyn else (n, L)

    def con(v, size):
        return num([v] + [Z] * (length(order, size) - 1), size)

    def new(args, exp, **kw):
        return call("__init__", args, exp, kind="i", **kw)
    yield new([], con(Z, n0))
    for kw in (None, "f"):
        yield new([F(3 * STRIDE, kw)], con(s, n0))
        yield new([I(3, kw)], con(X(3.0), n0))
    sizes = (0, 1, n, n + 2) if dyn else (n,)
    for m in sizes:
        yield new([I(m, "size")], con(Z, m))
        yield new([sc, I(m)], con(s, m))
        yield new([sc, I(m, "size")], con(s, m))
        yield new([F(3 * STRIDE, "f"), I(m, "size")], con(s, m))
        yield new([I(2), I(m)], con(X(2.0), m))
    for kw in (None, "data"):
        yield new([S(L, STRIDE, kw)], num(bv[:L]))
    if order == 1:
        for k1, k2 in ((None, None), (None, "g"), ("f", "g")):
            yield new([F(3 * STRIDE, k1), S(n, STRIDE, k2)], num([s] + bv[:n]))
    else:
        ins2 = {2 * STRIDE + k: var("m%d" % k) for k in range(n * n)}
        vals = [s] + bv[:n] + [None] * (L - 1 - n)
        for i in range(n):
            for j in range(i, n):
                vals[hindex(n, i, j)] = ins2[2 * STRIDE + i * n + j]
        for k in ((None, None, None), (None, "g", "hm"), ("f", "g", "hm")):
            p = new([F(3 * STRIDE, k[0]), S(n, STRIDE, k[1]), M(n, n, 2 * STRIDE, k[2])], num(vals))
            p.ins.update({q: v.n for q, v in ins2.items()})
            yield p
    # statics
    def stat(name, args, exp, **kw):
        return call(name, args, exp, kind="s", **kw)
    yield stat("zero", [], con(Z, n0))
    yield stat("empty", [], ({}, {100: OBJ, 101: order, 0: n0, 1: L0}))
    for kw in (None, "f"):
        yield stat("constant", [F(3 * STRIDE, kw)], con(s, n0))
    for m in sizes:
        for kw in (None, "size"):
            yield stat("zero", [I(m, kw)], con(Z, m))
            yield stat("empty", [I(m, kw)], ({}, {100: OBJ, 101: order, 0: m, 1: length(order, m)}))
            yield stat("constant", [sc, I(m, kw)], con(s, m))
        yield stat("constant", [I(m, "size"), F(3 * STRIDE, "f")], con(s, m))
        for i in st.idx_list(m, 3):
            w = [s] + [Z] * (length(order, m) - 1)
            w[1 + i] = ONE
            for args in ([I(i), sc, I(m)], [I(i, "i"), F(3 * STRIDE, "f"), I(m, "size")], [I(m, "size"), F(3 * STRIDE, "f"), I(i, "i")]):
                yield stat("variable", args, num(w, m))
            if not dyn:
                for args in ([I(i), sc], [I(i, "i"), F(3 * STRIDE, "f")]):
                    yield stat("variable", args, num(w, m))
    if dyn:
        yield stat("variable", [I(0), sc], ({}, {100: TYPEERR}))
    for kw in (None, "values"):
        e, ie = {}, {100: LIST, 102: n}
        for i in range(min(n, 64)):
            ie[200 + i], ie[300 + i], ie[400 + 2 * i], ie[401 + 2 * i] = OBJ, order, n, L
            for k in range(L):
                e[STRIDE * (i + 10) + k] = bv[i] if k == 0 else ONE if k == 1 + i else Z
        yield stat("variables", [S(n, STRIDE, kw)], (e, ie))
    if not dyn:
        for m in {0, n - 1, n + 1} - {n, -1}:
            yield stat("variables", [S(m, STRIDE)], ({}, {100: TYPEERR}))
    # padding
    for name, kw1 in (("pad_left", "new_size"), ("pad_right", "new_size"), ("resize", "size")):
        if not dyn:
            yield rejected(name, [A0, I(n)])
            continue
        for m in (n, n + 1, n + 3):
            for kw in (None, kw1):
                Lm = length(order, m)
                if name == "resize":
                    yield call(name, [A0, I(m, kw)], ({STRIDE: a[0]}, {2: m, 3: Lm}))
                    continue
                w = [Z] * Lm
                w[0] = a[0]
                sh = m - n if name == "pad_left" else 0
                for i in range(n):
                    w[1 + sh + i] = a[1 + i]
                    if order == 2:
                        for j in range(i, n):
                            w[hindex(m, i + sh, j + sh)] = a[hindex(n, i, j)]
                yield call(name, [A0, I(m, kw)], same(*num(w, m)))


def evals(u):
    """eval against the C++ function."""
    r = next(iter(st.evals(st.Unit(u.order, u.ssize, u.n), "fp")))
    ins = dict(r.ins)
    r.expect, r.iexpect = {}, {}
    for kw in (None, "d"):
        yield u.prob("call", "eval", [O(u.order, u.n, 0), S(u.n, STRIDE, kw)], ins, {}, {100: FLT}), r, {0: 0}, {}


def restores(u):
    """Pickle, copy, deepcopy: equal, of the same class, independent; states of the wrong shape throw (C20)."""
    n, L, a, b, c = u.n, u.L, u.a, u.b, u.c
    ins = {STRIDE * q + k: x for q, o in enumerate((a, b, c)) for k, x in enumerate(o)}
    e, ie = {}, {100: OBJ, 101: u.order, 8: 0}
    for at, o in ((0, a), (1, a), (2, b), (3, a)):
        for k in range(L):
            e[STRIDE * at + k] = o[k]
        ie[2 * at], ie[2 * at + 1] = n, L
    for how, name in enumerate(("pickle", "copy", "deepcopy")):
        yield u.prob("restore", name, [O(u.order, n, 0)], ins, e, ie, kind=how)
    good = {length(u.order, k) for k in range(200)} if u.ssize < 0 else {L}
    bad = [(0, 0), (2, L), (3, L)] + [(1, k) for k in sorted({0, 1, 2, 3, 4, 5, 7, 8, 9, 11, L - 1, L + 1, 2 * L}) if k not in good]
    for m, k in bad:
        yield u.prob("call", "__setstate__", [Tup(m, k, 0)], {q: var("x%d" % q) for q in range(max(k, 1))}, {}, {}, kind="i", want="throw")
    for m in sorted(good)[:9]:
        nn = next(k for k in range(200) if length(u.order, k) == m) if u.ssize < 0 else n
        yield u.prob("call", "__setstate__", [Tup(1, m, 0)], {q: var("x%d" % q) for q in range(m)}, {q: var("x%d" % q) for q in range(m)},
                     {100: OBJ, 101: u.order, 0: nn, 1: m}, kind="i")


def registration(u):
    """The classes of the translation unit carry the names of their order and size."""
    sz = str(u.ssize) if u.ssize >= 0 else ""
    p = core.Problem("class names for size %s" % (sz or "dynamic"), "py.cpp", u.pydefs, "classes", {}, [0] * 3 + words("D%sScalar" % sz)
                     + words("DD%sScalar" % sz), (), {}, {0: 2, 3: 1, 4: 1}, mode="fp", extra=STUB, leaks=False)
    p.setup, p.throw_type = "hjx_setup", None
    yield p


# ---------------------------------------------------------------- the sparse class

SPDEFS = ["HJ_SPARSE", 'HJ_BIND="%s/python/src/bind_sscalar.cpp"' % build.REPO, "HJ_INIT=bind_sscalar", "HJ_SIZE=0"]


def Sp(mask, at, kw=None): return (0, mask, at, 0, kw)
def D(mask, at, kw=None): return (13, mask, at, 0, kw)
def Name(k, kw=None): return (15, 0, 0, k, kw)


class SUnit(ss.Unit):
    """Operands with the given name masks; hash function of std::string as modelled."""

    def pins(self, scalar=None):
        i = {}
        for q in range(3):
            i[STRIDE * q] = self.f[q]
            for k, v in self.d[q].items():
                i[STRIDE * q + 1 + k] = v
        i[3 * STRIDE] = scalar if scalar is not None else self.s
        return i

    def keep(self, *qs):
        e, ie = {}, {}
        for q in qs:
            for k, v in ss.Unit.operand(self, q).items():
                e[STRIDE * (q + 1) + k] = v
            ie[2 * (q + 1)] = ss.count(self.m[q])
        return e, ie

    def prob(self, entry, name, args, ins, exp=None, iexp=None, kind="m", inplace="", refl="", cls="SScalar", **kw):
        pos = next((q for q, a in enumerate(args) if a[4]), len(args))
        w = [len(args), pos, ord(kind)] + words(name) + words(cls)
        for a in args:
            w += [a[0], a[1], a[2], a[3]] + words(a[4] or "")
        w = (w + [0] * 44)[:43] + [self.all]
        if entry == "binop":
            w[27:35] = words(inplace) + words(refl)
        p = core.Problem("Python %s(%s) on %s" % (inplace or name, ", ".join((a[4] + "=" if a[4] else "") + sshow(a) for a in args), self.label),
                         "py.cpp", SPDEFS, entry, ins, w, (), exp, iexp, mode="fp", extra=STUB, leaks=False, nin=4 * STRIDE,
                         hash_model=self.hash, **kw)
        p.setup, p.throw_type = "hjx_setup", None
        return p


def sshow(a):
    if a[0] == 0: return "S{%x}" % a[1]
    if a[0] == 13: return "dict{%x}" % a[1]
    if a[0] == 15: return "name%d" % a[3]
    return show(a)


def sparse_numeric(u):
    m = u.m
    a, b, c = (Sp(m[q], q * STRIDE) for q in range(3))
    s = F(3 * STRIDE)
    typ = {100: OBJ, 101: 1}
    om = {k: k for k in [0] + [1 + k for k in ss.bits(u.all)]}
    im = {0: 0}

    def ref(grp, fn, scalar=None, idx=0, first=0):
        ins = u.ins(3, scalar)
        masks = list(m)
        if first:
            ins = {k: v for k, v in ins.items() if k >= ss.STRIDE}
            ins[0] = u.f[1]
            for k, v in u.d[1].items():
                ins[1 + k] = v
            masks[0] = m[1]
        return core.Problem("%s on %s" % (fn, u.label), "ss_num.cpp", ["HJ_" + grp], fn, ins, masks + [idx, u.all], (), {}, {}, mode="fp",
                            hash_model=u.hash)

    def call(name, args, r, nops=1, scalar=None, **kw):
        e, ie = u.keep(*range(nops))
        return u.prob("call", name, args, u.pins(scalar), e, {**ie, **typ}, **kw), r, om, im
    for name, fn in METHODS.items():
        yield call(name, [a], ref("FUNC", fn))
    yield call("__neg__", [a], ref("ARITH", "neg"))
    for kw in (None, "base"):
        yield call("log", [a, F(3 * STRIDE, kw)], ref("FUNC", "log_b"))
        yield call("log", [a, I(3, kw)], ref("FUNC", "log_b", fconst(3.0)))
    yield call("__pow__", [a, s], ref("FUNC", "pow"))
    for k in INTS:
        yield call("__pow__", [a, I(k)], ref("FUNC", "pow", fconst(float(k))))
    for name in ("atan2", "arctan2"):
        yield call(name, [a, b], ref("FUNC", "atan2"), 2)
        yield call(name, [a, Same(0)], ref("FUNC", "atan2_aa"))
    yield call("hypot", [a, b], ref("FUNC", "hypot"), 2)
    yield call("hypot", [a, b, c], ref("FUNC", "hypot3"), 3)
    yield call("hypot", [a, Same(0)], ref("FUNC", "hypot_aa"))

    def op(name, args, r, after=(), inplace="", refl="", iexp=None, maps=(om, im)):
        e, ie = u.keep(*after)
        return (u.prob("binop", name, args, u.pins(), e, {**ie, **(typ if iexp is None else iexp)}, inplace=inplace, refl=refl), r) + maps
    for py, fn in OPS:
        nm, inm = "__%s__" % py, "__i%s__" % py
        k = {"refl": "__r%s__" % py}
        yield op(nm, [a, b], ref("ARITH", fn), (0, 1), **k)
        yield op(nm, [a, Same(0)], ref("ARITH", fn + "_aa"), (0,), **k)
        yield op(nm, [a, s], ref("ARITH", fn + "_ts"), (0,), **k)
        yield op(nm, [s, b], ref("ARITH", fn + "_st", first=1), (1,), **k)
        yield op(nm, [a, I(3)], ref("ARITH", fn + "_ts", fconst(3.0)), (0,), **k)
        yield op(nm, [I(3), b], ref("ARITH", fn + "_st", fconst(3.0), first=1), (1,), **k)
        yield op(nm, [a, b], ref("ARITH", "i" + fn), (1,), inplace=inm, **k)
        yield op(nm, [a, Same(0)], ref("ARITH", "i%s_x" % fn), (), inplace=inm, **k)
        yield op(nm, [a, s], ref("ARITH", "i%s_s" % fn), (), inplace=inm, **k)
        yield op(nm, [a, I(3)], ref("ARITH", "i%s_s" % fn, fconst(3.0)), (), inplace=inm, **k)
    for i, (nm, rn) in enumerate(CMP):
        k = {"refl": rn, "iexp": {100: BOL}, "maps": ({}, {102: i})}
        yield op(nm, [a, b], ref("MISC", "cmp"), (0, 1), **k)
        yield op(nm, [a, s], ref("MISC", "cmp_ts"), (0,), **k)
        yield op(nm, [s, b], ref("MISC", "cmp_st", first=1), (1,), **k)
        yield op(nm, [a, I(3)], ref("MISC", "cmp_ts", fconst(3.0)), (0,), **k)
        yield op(nm, [I(3), b], ref("MISC", "cmp_st", fconst(3.0), first=1), (1,), **k)
    # eval: the increments are a dictionary
    rins = u.ins(2)
    r = core.Problem("eval on " + u.label, "ss_num.cpp", ["HJ_MISC"], "eval", rins, [m[0], m[1], 0, 0, u.all], (), {}, {}, mode="fp",
                     hash_model=u.hash)
    for kw in (None, "d"):
        e, ie = u.keep(0)
        yield u.prob("call", "eval", [a, D(m[1], STRIDE, kw)], u.pins(), e, {**ie, 100: FLT}), r, {0: 0}, {}


def sparse_structural(u):
    m = u.m
    a, s = Sp(m[0], 0), F(3 * STRIDE)
    ins = u.pins()
    z = {1 + k: X(0.0) for k in ss.bits(u.all)}
    e0, ie0 = u.keep(0)

    def call(name, args, e, ie, kind="m", own=True):
        return u.prob("call", name, args, ins, {**(e0 if own else {}), **e}, {**(ie0 if own else {}), **ie}, kind=kind)
    yield call("f", [a], {0: u.f[0]}, {100: FLT}, "g")
    yield call("size", [a], {}, {100: INT, 102: ss.count(m[0])}, "g")
    yield call("__len__", [a], {}, {100: INT, 102: ss.count(m[0])})
    for k in ss.bits(u.all):
        for kw in (None, "variable"):
            yield call("d", [a, Name(k, kw)], {0: u.d[0].get(k, X(0.0))}, {100: FLT})

    def new(name, args, e, size, kind):
        return call(name, args, {**z, **e}, {100: OBJ, 101: 1, 0: size}, kind, False)
    yield new("__init__", [], {0: X(0.0)}, 0, "i")
    for kw in (None, "f"):
        yield new("__init__", [F(3 * STRIDE, kw)], {0: u.s}, 0, "i")
        yield new("__init__", [I(3, kw)], {0: X(3.0)}, 0, "i")
    ed = {1 + k: v for k, v in u.d[1].items()}
    for kf, kd in ((None, None), (None, "d"), ("f", "d")):
        yield new("__init__", [F(3 * STRIDE, kf), D(m[1], STRIDE, kd)], {0: u.s, **ed}, ss.count(m[1]), "i")
        yield new("__init__", [I(3, kf), D(m[1], STRIDE, kd)], {0: X(3.0), **ed}, ss.count(m[1]), "i")
    yield new("__init__", [D(m[1], STRIDE, "d")], {0: X(0.0), **ed}, ss.count(m[1]), "i")
    for kw in (None, "value"):
        yield new("constant", [F(3 * STRIDE, kw)], {0: u.s}, 0, "s")
    for k in ss.bits(u.all):
        for kn, kv in ((None, None), (None, "value"), ("name", "value")):
            yield new("variable", [Name(k, kn), F(3 * STRIDE, kv)], {0: u.s, 1 + k: X(1.0)}, 1, "s")


def decide_pairs(pairs, res):
    """(python problem, reference, output map, integer map): equal references are explored once."""
    todo = {}
    for p, r, om, im in pairs:
        r.mode = p.mode
        key = (r.fn, tuple(r.defs), tuple(r.iins), tuple(sorted((k, v.id) for k, v in r.ins.items())))
        todo.setdefault(key, (r, []))[1].append((p, om, im))
    for r, l in todo.values():
        eqv.against(r, l, res)
        if len(res.violations) > 3:
            return
