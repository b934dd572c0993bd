"""C23: numbers over float and long double obey the formulas of C01-C05 (rounding read as exact)."""
from checks import C05
from vf import core, dd, main, real, spec, ss

SCALARS = ("float", "long double")


def over(scalar, ps):
    for p in ps:
        p.defs = p.defs + ["HJ_SCALAR=" + scalar]
        p.name = p.name + " over " + scalar
        yield p


def dense(res, tier, scalar, order, ssize, sizes):
    real.SINGLE = True
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        ps = list(over(scalar, list(dd.arith(u)) + list(dd.compound(u)) + list(dd.unary_fns(u)) + list(dd.other_fns(u))))
        dd.run_all(res, ps)


def sparse(res, tier, scalar, hash_model, k):
    real.SINGLE = True
    m3 = C05.masks(C05.NAMES3)
    ps = []
    for a in m3[k::2]:
        u = ss.Unit(a, hash_model=hash_model)
        ps += list(ss.arith_unary(u)) + list(ss.funcs(u)) + list(ss.other(u))
        for b in m3:
            u = ss.Unit(a, b, m3[3], hash_model=hash_model)
            ps += list(ss.arith_binary(u)) + list(ss.binary(u)) + list(ss.ternary(u))
    dd.run_all(res, list(over(scalar, ps)))


def sizes(tier):
    return ((0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 5, 8)) if tier == "quick" else (tuple(range(17)), tuple(range(9)) + (12, 16, 17, 24))


def tasks(tier):
    fixed, run = sizes(tier)
    t = [(dense, (s, o, -1, run)) for s in SCALARS for o in (2, 1)]
    t += [(dense, (s, o, n, (n,))) for n in fixed[::-1] for s in SCALARS for o in (2, 1)]
    return t + [(sparse, (s, h, k)) for s in SCALARS for h in (("fnv", "collide") if tier == "quick" else C05.HASHES) for k in (0, 1)]


def describe(tier):
    return {"bounds": "scalar types float and long double; orders 1 and 2; fixed sizes %s; run-time sizes %s; sparse numbers over subsets of 3 names; all values, "
                      "gradients and Hessian entries symbolic" % sizes(tier), "assumptions": main.REAL_ASSUMPTIONS}
