"""Problem builders for harness/ss_num.cpp: sparse scalars whose name sets are bit masks over a fixed table."""
from . import core, spec
from .spec import X, var
from .terms import fconst

STRIDE = 40
NN = 24


def bits(m):
    return [k for k in range(NN) if m >> k & 1]


class Unit:
    """Operands a, b, c with the name sets given by masks."""

    def __init__(self, ma, mb=0, mc=0, hash_model="fnv"):
        self.m = (ma, mb, mc)
        self.all = ma | mb | mc | 1 | 4 | 1 << 23
        self.f = [var(x) for x in "abc"]
        self.d = [{k: var("%s_%d" % (x, k)) for k in bits(m)} for x, m in zip("abc", self.m)]
        self.s = var("s")
        self.hash = hash_model
        self.label = "SScalar names %s hash %s" % ("/".join("%x" % x for x in self.m), hash_model)

    def ins(self, nops, scalar=None):
        i = {}
        for q in range(nops):
            i[STRIDE * q] = self.f[q]
            for k, v in self.d[q].items():
                i[STRIDE * q + 1 + k] = v
        i[3 * STRIDE] = scalar if scalar is not None else self.s
        return i

    def result(self, fd, ops):
        """fd = (f, [partials], ..): value, then one derivative per reported name."""
        f, d1 = fd[0], fd[1]
        e = {0: f}
        for k in bits(self.all):
            t = None
            for o, p in zip(ops, d1):
                if k in self.d[o]:
                    x = p * self.d[o][k]
                    t = x if t is None else t + x
            e[1 + k] = t if t is not None else X(0.0)
        return e

    def operand(self, q):
        e = {0: self.f[q]}
        for k in bits(self.all):
            e[1 + k] = self.d[q].get(k, X(0.0))
        return e

    def problem(self, grp, fn, exp, size, dom=(), nops=1, keep=None, scalar=None, idx=0, iexpect=None, operands=None, mode="real"):
        e = dict(exp)
        ie = {0: size}
        ie.update(iexpect or {})
        for q in (range(nops) if keep is None else keep):
            for k, v in self.operand(q).items():
                e[STRIDE * (q + 1) + k] = v
            ie[1 + q] = bin(self.m[q]).count("1")
        return core.Problem("%s on %s" % (fn, self.label), "ss_num.cpp", ["HJ_" + grp], fn, self.ins(operands or max(nops, 1), scalar),
                            list(self.m) + [idx, self.all], dom, e, ie, mode=mode, hash_model=self.hash)


def count(m):
    return bin(m).count("1")


def un(u, fd, grp, fn, **kw):
    f, d1, d2, dom = fd
    return u.problem(grp, fn, u.result((f, [d1]), [0]), count(u.m[0]), dom, 1, **kw)


def multi(u, fd, grp, fn, ops, nops, **kw):
    f, d1, d2, dom = fd
    m = 0
    for o in ops:
        m |= u.m[o]
    return u.problem(grp, fn, u.result((f, d1), ops), count(m), dom, nops, **kw)


def arith_binary(u):
    a, b, s = u.f[0], u.f[1], u.s
    for fn, g in (("add", spec.g_add), ("sub", spec.g_sub), ("mul", spec.g_mul), ("div", spec.g_div)):
        yield multi(u, g(a, b), "ARITH", fn, [0, 1], 2)
        yield multi(u, g(a, b), "ARITH", "i" + fn, [0, 1], 2, keep=[1], iexpect={8: 1})


def arith_unary(u):
    a, s = u.f[0], u.s
    for fn, g in (("add", spec.g_add), ("sub", spec.g_sub), ("mul", spec.g_mul), ("div", spec.g_div)):
        f, d1, d2, dom = g(a, s)
        m = u.problem
        yield m("ARITH", fn + "_ts", u.result((f, [d1[0]]), [0]), count(u.m[0]), dom, 1)
        yield m("ARITH", "i%s_s" % fn, u.result((f, [d1[0]]), [0]), count(u.m[0]), dom, 1, keep=[], iexpect={8: 1})
        f, d1, d2, dom = g(s, a)
        yield m("ARITH", fn + "_st", u.result((f, [d1[1]]), [0]), count(u.m[0]), dom, 1)
        f, d1, d2, dom = g(a, a)
        yield m("ARITH", fn + "_aa", u.result((f, d1), [0, 0]), count(u.m[0]), dom, 1)
        yield m("ARITH", "i%s_x" % fn, u.result((f, d1), [0, 0]), count(u.m[0]), dom, 1, keep=[], iexpect={8: 1})
    f, d1, d2, dom = spec.f_neg(a)
    yield u.problem("ARITH", "neg", u.result((f, [d1]), [0]), count(u.m[0]), dom, 1)


def make(u):
    c, z = count, {1 + k: X(0.0) for k in bits(u.all)}
    v = u.f[0]
    yield u.problem("MAKE", "constant", dict(z, **{}) | {0: v}, 0, keep=[])
    yield u.problem("MAKE", "value", z | {0: v}, 0, keep=[])
    for k in bits(u.all):
        yield u.problem("MAKE", "variable", z | {0: v, 1 + k: X(1.0)}, 1, keep=[], idx=k)
    yield u.problem("MAKE", "fromdata", u.operand(0), c(u.m[0]))
    yield u.problem("MAKE", "selfassign", u.operand(0), c(u.m[0]), keep=[])


def copies(u):
    a, b = u.f[0], u.f[1]
    yield multi(u, spec.g_add(a, b), "MAKE", "copy", [0, 1], 2)
    yield multi(u, spec.g_mul(a, b), "MAKE", "assign", [0, 1], 2)
    yield u.problem("MAKE", "move", u.operand(0), count(u.m[0]), nops=2)


def funcs(u):
    for name, l in spec.UNARY.items():
        for f in l:
            fd = f(u.f[0])
            yield un(u, fd, "FUNC", name)
            if name != "reciprocal":
                yield un(u, fd, "FUNC", name + "_f")


def other(u, ints=(-3, -2, -1, 0, 1, 2, 3, 4, 5, 7), fracs=(0.5, 1.5, -0.5, 2.5)):
    a, s = u.f[0], u.s
    yield un(u, spec.f_pow(s)(a), "FUNC", "pow")
    yield un(u, spec.f_pow(s)(a), "FUNC", "pow_f")
    for k in ints:
        fd = spec.f_powi(k)(a)
        yield un(u, fd, "FUNC", "pow", scalar=fconst(float(k)))
        yield un(u, fd, "FUNC", "pow_f", scalar=fconst(float(k)))
        yield un(u, fd, "FUNC", "pow_i", idx=k)
    for k in fracs:
        yield un(u, spec.f_pow(X(k))(a), "FUNC", "pow", scalar=fconst(k))
    yield un(u, spec.f_log_b(s)(a), "FUNC", "log_b")
    f, d1, d2, dom = spec.g_atan2(a, a)
    yield u.problem("FUNC", "atan2_aa", u.result((f, d1), [0, 0]), count(u.m[0]), [spec.ne(a)], 1)
    f, d1, d2, dom = spec.g_hypot(a, a)
    yield u.problem("FUNC", "hypot_aa", u.result((f, d1), [0, 0]), count(u.m[0]), [spec.ne(a)], 1)
    yield multi(u, spec.g_hypot(a, a, a), "FUNC", "hypot3_aaa", [0, 0, 0], 1)


def binary(u):
    a, b = u.f[0], u.f[1]
    for fn, g in (("atan2", spec.g_atan2), ("hypot", spec.g_hypot)):
        yield multi(u, g(a, b), "FUNC", fn, [0, 1], 2)
        yield multi(u, g(a, b), "FUNC", fn + "_f", [0, 1], 2)
    for w, ops in (("aab", [0, 0, 1]), ("aba", [0, 1, 0]), ("abb", [0, 1, 1])):
        yield multi(u, spec.g_hypot(*[u.f[o] for o in ops]), "FUNC", "hypot3_" + w, ops, 2)


def ternary(u):
    a, b, c = u.f
    yield multi(u, spec.g_hypot(a, b, c), "FUNC", "hypot3", [0, 1, 2], 3)
    yield multi(u, spec.g_hypot(a, b, c), "FUNC", "hypot3_f", [0, 1, 2], 3)
