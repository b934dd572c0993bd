"""C01: plain arithmetic of DDScalar against calculus, exact real arithmetic."""
from vf import core, dd, main, spec


def run(res, tier, order, ssize, sizes):
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        ps = list(dd.arith(u))
        dd.run_all(res, ps)
        if n == 3:
            for p in ps:
                core.validate(p, res, 2 if tier == "quick" else 6)


def oracle(res, tier):
    res.extra["oracle_derivatives_compared_with_numeric_differentiation"] = spec.selftest(3 if tier == "quick" else 20, core.SEED)


def tasks(tier):
    t = [(run, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    return t + [(oracle, ())]


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes %s; scalar type double; all values, gradients and Hessian "
                      "entries symbolic" % (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH),
            "assumptions": main.REAL_ASSUMPTIONS}
