"""Problem builders for harness/dd_num.cpp: one DDScalar type (order, fixed size or run-time size)."""
from . import core, spec
from .spec import chain, operand, var, X
from .terms import fconst

STRIDE = 2500
STATIC = list(range(0, 17))
DYNAMIC = list(range(0, 9)) + [10, 12, 16, 17, 24, 33]
DYNAMIC_THOROUGH = list(range(0, 25)) + [28, 32, 33, 48]


def units(tier, orders=(1, 2)):
    """(order, static size or -1, size)"""
    out = []
    for o in orders:
        out += [(o, n, n) for n in STATIC]
        out += [(o, -1, n) for n in (DYNAMIC if tier == "quick" else DYNAMIC_THOROUGH)]
    return out


def small_units(tier):
    out = []
    for o in (1, 2):
        out += [(o, n, n) for n in ((0, 1, 2, 3, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 11, 16))]
        out += [(o, -1, n) for n in ((0, 1, 2, 3, 4) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 11, 17))]
    return out


def by_tu(us):
    """Groups units by translation unit (order, static size)."""
    d = {}
    for o, s, n in us:
        d.setdefault((o, s), []).append(n)
    return sorted(d.items())


class Unit:
    def __init__(self, order, ssize, n):
        self.order, self.ssize, self.n = order, ssize, n
        self.L = spec.length(order, n)
        self.a, self.b, self.c = [operand(x, order, n) for x in "abc"]
        self.s = var("s")
        self.label = "%s<%d,%s>" % ("DDScalar", order, ssize if ssize >= 0 else "Dynamic n=%d" % n)
        self.defs = ["HJ_ORDER=%d" % order, "HJ_SIZE=%d" % ssize]

    def ins(self, nops=3, scalar=None):
        d = {}
        for q, o in enumerate((self.a, self.b, self.c)[:nops]):
            for k, x in enumerate(o):
                d[STRIDE * q + k] = x
        d[3 * STRIDE] = scalar if scalar is not None else self.s
        return d

    def after(self, nops, at=1):
        """Expected operands after the call: unchanged."""
        e, ie = {}, {}
        for q in range(nops):
            for k in range(self.L):
                e[STRIDE * (q + at) + k] = (self.a, self.b, self.c)[q][k]
            ie[2 * (q + at)] = self.n
            ie[2 * (q + at) + 1] = self.L
        return e, ie

    def problem(self, grp, fn, out, dom=(), nops=1, scalar=None, idx=(0, 0), mode="real", operands=None, **kw):
        """out: expected entries of the result; nops: operands the entry point reports back unchanged."""
        e = dict(enumerate(out)) if isinstance(out, list) else dict(out)
        ae, aie = self.after(nops)
        e.update(ae)
        ie = {0: self.n, 1: self.L}
        ie.update(aie)
        ie.update(kw.pop("iexpect", {}))
        kw.setdefault("extra", ())
        return core.Problem("%s on %s" % (fn, self.label), "dd_num.cpp", self.defs + ["HJ_" + grp], fn,
                            self.ins(operands or max(nops, 1), scalar), [self.n] * 3 + list(idx), dom, e, ie, mode=mode, **kw)

    def chain(self, ops, fd):
        f, d1, d2, dom = fd
        return chain(self.order, self.n, ops, f, d1, d2), dom

    def unary(self, fd, x=None):
        """Expected entries for a unary function description (f, f', f'', domain)."""
        f, d1, d2, dom = fd
        return self.chain([x or self.a], (f, [d1], {(0, 0): d2}, dom))


def run_all(res, problems):
    for p in problems:
        core.decide(p, res)
        if len(res.violations) > 3:
            break


# ---------------------------------------------------------------- C01

def arith(u):
    a, b, s = u.a, u.b, u.s
    con = [s] + [X(0.0)] * (u.L - 1)
    for fn, g in (("add", spec.g_add), ("sub", spec.g_sub), ("mul", spec.g_mul), ("div", spec.g_div)):
        out, dom = u.chain([a, b], g(a[0], b[0]))
        yield u.problem("ARITH", fn, out, dom, 2)
        out, dom = u.chain([a, con], g(a[0], s))
        yield u.problem("ARITH", fn + "_ts", out, dom, 1)
        out, dom = u.chain([con, a], g(s, a[0]))
        yield u.problem("ARITH", fn + "_st", out, dom, 1)
        out, dom = u.chain([a, a], g(a[0], a[0]))
        yield u.problem("ARITH", fn + "_aa", out, dom, 1)
    out, dom = u.unary(spec.f_neg(a[0]))
    yield u.problem("ARITH", "neg", out, dom, 1)


def unary_fns(u):
    for name, l in spec.UNARY.items():
        for f in l:
            out, dom = u.unary(f(u.a[0]))
            yield u.problem("FUNC", name, out, dom, 1)
            if name != "reciprocal":
                yield u.problem("FUNC", name + "_f", out, dom, 1)


POW_INTS = (-3, -2, -1, 0, 1, 2, 3, 4, 5, 7)
POW_FRACS = (0.5, 1.5, -0.5, 2.5, 1.0 / 3)


def other_fns(u, ints=POW_INTS, fracs=POW_FRACS):
    a, b, c, s = u.a, u.b, u.c, u.s
    out, dom = u.unary(spec.f_pow(s)(a[0]))
    yield u.problem("FUNC", "pow", out, dom, 1)
    yield u.problem("FUNC", "pow_f", out, dom, 1)
    for k in ints:
        out, dom = u.unary(spec.f_powi(k)(a[0]))
        sc = fconst(float(k))
        yield u.problem("FUNC", "pow", out, dom, 1, scalar=sc)
        yield u.problem("FUNC", "pow_f", out, dom, 1, scalar=sc)
        yield u.problem("FUNC", "pow_i", out, dom, 1, idx=(k, 0))
    for k in fracs:
        out, dom = u.unary(spec.f_pow(X(k))(a[0]))
        yield u.problem("FUNC", "pow", out, dom, 1, scalar=fconst(k))
    out, dom = u.unary(spec.f_log_b(s)(a[0]))
    yield u.problem("FUNC", "log_b", out, dom, 1)
    out, dom = u.chain([a, b], spec.g_atan2(a[0], b[0]))
    yield u.problem("FUNC", "atan2", out, dom, 2)
    yield u.problem("FUNC", "atan2_f", out, dom, 2)
    out, dom = u.chain([a, b], spec.g_hypot(a[0], b[0]))
    yield u.problem("FUNC", "hypot", out, dom, 2)
    yield u.problem("FUNC", "hypot_f", out, dom, 2)
    out, dom = u.chain([a, b, c], spec.g_hypot(a[0], b[0], c[0]))
    yield u.problem("FUNC", "hypot3", out, dom, 3)
    yield u.problem("FUNC", "hypot3_f", out, dom, 3)
    out, dom = u.chain([a, a], spec.g_atan2(a[0], a[0]))
    yield u.problem("FUNC", "atan2_aa", out, [spec.ne(a[0])], 1)
    out, dom = u.chain([a, a], spec.g_hypot(a[0], a[0]))
    yield u.problem("FUNC", "hypot_aa", out, [spec.ne(a[0])], 1)
    for w, ops in (("aaa", [a, a, a]), ("aab", [a, a, b]), ("aba", [a, b, a]), ("abb", [a, b, b])):
        out, dom = u.chain(ops, spec.g_hypot(*[o[0] for o in ops]))
        yield u.problem("FUNC", "hypot3_" + w, out, dom, 1 if w == "aaa" else 2)


def compound(u):
    a, b, s = u.a, u.b, u.s
    for fn, g in (("iadd", spec.g_add), ("isub", spec.g_sub), ("imul", spec.g_mul), ("idiv", spec.g_div)):
        def prob(name, out, dom, nops, keep, idx=(0, 0), scalar=None):
            e = dict(enumerate(out))
            e.update(keep)
            ie = {0: u.n, 1: u.L, 8: 1}
            return core.Problem("%s on %s" % (name, u.label), "dd_num.cpp", u.defs + ["HJ_COMP"], name, u.ins(nops, scalar),
                                [u.n] * 3 + list(idx), dom, e, ie)
        out, dom = u.chain([a, b], g(a[0], b[0]))
        yield prob(fn, out, dom, 2, {2 * STRIDE + k: b[k] for k in range(u.L)})
        con = [s] + [X(0.0)] * (u.L - 1)
        out, dom = u.chain([a, con], g(a[0], s))
        yield prob(fn + "_s", out, dom, 1, {STRIDE: s})
        out, dom = u.chain([a, a], g(a[0], a[0]))
        yield prob(fn + "_x", out, dom, 1, {})
        # the right-hand side is a reference to one of x's own entries
        for k in sorted({0, 1, u.n // 2 + 1, u.n, u.L // 2, u.L - 1}):
            if k >= u.L:
                continue
            con = [a[k]] + [X(0.0)] * (u.L - 1)
            out, dom = u.chain([a, con], g(a[0], a[k]))
            yield prob(fn + "_e", out, dom, 1, {}, (k, 0))
