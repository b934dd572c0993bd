"""C04: compound assignment of DDScalar against calculus, exact real arithmetic."""
from vf import core, dd, main, spec, ss
from checks import C05


def run(res, tier, order, ssize, sizes):
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        ps = list(dd.compound(u))
        dd.run_all(res, ps)
        if n == 3:
            for p in ps:
                core.validate(p, res, 2 if tier == "quick" else 6)


def sparse(res, tier, hash_model):
    ps = []
    m3 = C05.masks(C05.NAMES3)
    for a, b in [(a, b) for a in m3 for b in m3] + C05.BIG:
        u = ss.Unit(a, b, hash_model=hash_model)
        ps += [p for p in list(ss.arith_binary(u)) + (list(ss.arith_unary(u)) if b == a else []) if p.fn[4:].startswith(("iadd", "isub", "imul", "idiv"))]
    dd.run_all(res, ps)
    if hash_model == "fnv":
        for p in ps[::7]:
            core.validate(p, res, 1)


def oracle(res, tier):
    res.extra["oracle_derivatives_compared_with_numeric_differentiation"] = spec.selftest(3 if tier == "quick" else 20, core.SEED)


def tasks(tier):
    t = [(run, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    return [(sparse, (h,)) for h in (C05.HASHES if tier == "thorough" else ("fnv", "collide"))] + t + [(oracle, ())]


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes %s; scalar type double; all values, gradients and Hessian "
                      "entries symbolic; sparse scalars over the name sets of C05" % (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH),
            "assumptions": main.REAL_ASSUMPTIONS}
