"""C16: the value part of every result is, bit for bit, what the plain double operation gives (IEEE floats, libm uninterpreted)."""
from vf import core, dd, main, ss
from vf.spec import X
from vf.terms import fconst, mk

UNARY = ("sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log",
         "log2", "log10")


def op(name, *a):
    return mk(name, tuple(a), "d")


def call(name, *a):
    return mk("call", (name,) + tuple(a), "d")


def table(a, b, c, s, ints):
    """(group, entry point, operands, value, index, scalar)"""
    one = fconst(1.0)
    for fn, o in (("add", "fadd"), ("sub", "fsub"), ("mul", "fmul")):
        yield "ARITH", fn, 2, op(o, a, b), 0, None
        yield "ARITH", fn + "_ts", 1, op(o, a, s), 0, None
        yield "ARITH", fn + "_st", 1, op(o, s, a), 0, None
        yield "ARITH", fn + "_aa", 1, op(o, a, a), 0, None
        yield "COMP", "i" + fn, 2, op(o, a, b), 0, None
        yield "COMP", "i" + fn + "_s", 1, op(o, a, s), 0, None
        yield "COMP", "i" + fn + "_x", 1, op(o, a, a), 0, None
    yield "ARITH", "neg", 1, op("fneg", a), 0, None
    yield "FUNC", "reciprocal", 1, op("fdiv", one, a), 0, None
    for f in UNARY:
        yield "FUNC", f, 1, call(f, a), 0, None
        yield "FUNC", f + "_f", 1, call(f, a), 0, None
    for fn in ("pow", "pow_f"):
        yield "FUNC", fn, 1, call("pow", a, s), 0, None
        for k in ints:
            yield "FUNC", fn, 1, call("pow", a, fconst(float(k))), 0, fconst(float(k))
    for k in ints:
        yield "FUNC", "pow_i", 1, call("pow", a, fconst(float(k))), k, None
    for fn in ("atan2", "atan2_f"):
        yield "FUNC", fn, 2, call("atan2", a, b), 0, None
    yield "FUNC", "atan2_aa", 1, call("atan2", a, a), 0, None
    for fn in ("hypot", "hypot_f"):
        yield "FUNC", fn, 2, call("hypot", a, b), 0, None
    yield "FUNC", "hypot_aa", 1, call("hypot", a, a), 0, None
    for fn in ("hypot3", "hypot3_f"):
        yield "FUNC", fn, 3, call("hypot3", a, b, c), 0, None


def ddrun(res, tier, order, ssize, sizes):
    ints = (-2, -1, 0, 1, 2, 3) if tier == "quick" else range(-8, 9)
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        ps = [core.Problem("value of %s on %s" % (fn, u.label), "dd_num.cpp", u.defs + ["HJ_" + g], fn, u.ins(nops, sc),
                           [n] * 3 + [i, 0], [], {0: e}, {}, mode="fp")
              for g, fn, nops, e, i, sc in table(u.a[0].n, u.b[0].n, u.c[0].n, u.s.n, ints)]
        dd.run_all(res, ps)
        if n == 2:
            for p in ps[::6]:
                core.validate(p, res, 1)


def sparse(res, tier, h, ms):
    ints = (-2, -1, 0, 1, 2, 3) if tier == "quick" else range(-8, 9)
    for ma, mb, mc in ms:
        u = ss.Unit(ma, mb, mc, hash_model=h)
        ps = [core.Problem("value of %s on %s" % (fn, u.label), "ss_num.cpp", ["HJ_" + ("ARITH" if g == "COMP" else g)], fn,
                           u.ins(nops, sc), [ma, mb, mc, i, u.all], [], {0: e}, {}, mode="fp", hash_model=h)
              for g, fn, nops, e, i, sc in table(u.f[0].n, u.f[1].n, u.f[2].n, u.s.n, ints)]
        dd.run_all(res, ps)
        for p in ps[::9]:
            core.validate(p, res, 1)


SETS = [(0, 0, 0), (1, 1, 1), (1, 4, 8), (5, 12, 0), (13, 13, 13), (0, 13, 1), (13, 0, 4), (0xffff, 0xff00ff, 0xf)]


def tasks(tier):
    t = [(ddrun, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    t += [(sparse, (h, (m,))) for m in SETS for h in (("fnv",) if tier == "quick" else ("fnv", "collide", "sum", "rev"))]
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2, fixed sizes 0..16, run-time sizes %s; sparse scalars with %d name-set triples; every double value of "
                      "value, derivatives and scalar operand" % (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH, len(SETS)),
            "assumptions": main.FP_ASSUMPTIONS + ["division and log with a base are outside the property (their value is formed in two steps)"]}
