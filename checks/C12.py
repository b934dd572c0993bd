"""C12: eval is the Taylor polynomial (DDScalar) / the linear differential (SScalar), exact real arithmetic."""
from vf import core, dd, main, st


from vf import ss
from vf.spec import X, var


def run(res, tier, order, ssize, sizes):
    for n in sizes:
        ps = list(st.evals(st.Unit(order, ssize, n)))
        dd.run_all(res, ps)
        for p in ps:
            core.validate(p, res, 1)


def sparse(res, tier, hash_model):
    ps = []
    ms = [0, 1, 4, 5, 8, 9, 12, 13]
    for a in ms + [0xffff, 0xffffff]:
        for b in ms + [0xff00ff, 0xffffff]:
            u = ss.Unit(a, b, hash_model=hash_model)
            r = X(0.0)
            for k in ss.bits(a & b):
                r = r + u.d[0][k] * u.d[1][k]
            e = {0: r}
            for k, v in u.operand(0).items():
                e[ss.STRIDE + k] = v
            ps.append(core.Problem("eval on " + u.label, "ss_num.cpp", ["HJ_MISC"], "eval", u.ins(2), [a, b, 0, 0, u.all], [], e,
                                   {1: ss.count(a)}, hash_model=hash_model))
    dd.run_all(res, ps)
    if hash_model == "fnv":
        for p in ps[::5]:
            core.validate(p, res, 1)


def tasks(tier):
    t = [(run, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    return t + [(sparse, (h,)) for h in ("fnv", "collide", "sum", "rev")]


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes %s; sparse: all pairs of subsets of 3 names and some of up to 24, "
                      "4 hash functions; all entries symbolic" % (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH),
            "assumptions": main.REAL_ASSUMPTIONS}
