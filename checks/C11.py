"""C11: comparisons look at the values only and agree with double comparison; abs; for every bit pattern."""
from vf import core, dd, main, ss
from vf.terms import mk

PREDS = ("oeq", "une", "olt", "ogt", "ole", "oge")
ZERO = mk("const", (0,), "d")


def cmps(x, y):
    return {k: mk("zext", (mk("fcmp", (p, x, y), 1),), 64) for k, p in enumerate(PREDS)}


def absolute(v, entries):
    """entries negated when v < 0: as terms with an if"""
    neg = mk("fcmp", ("olt", v, ZERO), 1)
    return neg, {k: e for k, e in entries.items()}, {k: mk("fneg", (e,), "d") for k, e in entries.items()}


def ddrun(res, tier, order, ssize, sizes):
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        a, b, s = u.a[0].n, u.b[0].n, u.s.n
        ii = [n] * 3 + [0, 0]
        d = u.defs + ["HJ_FUNC"]
        ps = [core.Problem("%s on %s" % (fn, u.label), "dd_num.cpp", d, fn, u.ins(2), ii, [], {}, cmps(x, y), mode="fp")
              for fn, x, y in (("cmp", a, b), ("cmp_ts", a, s), ("cmp_st", s, a))]
        # same value, different derivatives; same object values
        i2 = u.ins(2)
        i2[dd.STRIDE] = u.a[0]
        ps.append(core.Problem("cmp equal values on " + u.label, "dd_num.cpp", d, "cmp", i2, ii, [], {}, cmps(a, a), mode="fp"))
        neg, pos, ng = absolute(a, {k: x.n for k, x in enumerate(u.a)})
        keep, ik = u.after(1)
        for fn in ("abs", "abs_f"):
            for dom, e in ((neg, ng), (mk("xor", (neg, 1), 1), pos)):
                ps.append(core.Problem("%s on %s" % (fn, u.label), "dd_num.cpp", d, fn, u.ins(1), ii, [dom], {**e, **keep},
                                       {0: n, 1: u.L, **ik}, mode="fp"))
        dd.run_all(res, ps)
        if n in (0, 3):
            for p in ps[:4]:
                core.validate(p, res, 2)


def sparse(res, tier, h, ma):
    for mb in (0, 1, 4, 13, 0xffff):
        u = ss.Unit(ma, mb, hash_model=h)
        a, b, s = u.f[0].n, u.f[1].n, u.s.n
        ii = [ma, mb, 0, 0, u.all]
        ps = [core.Problem("%s on %s" % (fn, u.label), "ss_num.cpp", ["HJ_MISC"], fn, u.ins(2), ii, [], {}, cmps(x, y), mode="fp",
                           hash_model=h) for fn, x, y in (("cmp", a, b), ("cmp_ts", a, s), ("cmp_st", s, a))]
        dd.run_all(res, ps)
        for p in ps[::2]:
            core.validate(p, res, 1)
    neg, pos, ng = absolute(a, {k: x.n for k, x in u.operand(0).items()})
    for k in ss.bits(u.all):
        if not ma >> k & 1:
            ng[1 + k] = ZERO        # a name that is not stored reads as zero, not as minus zero
    keep = {ss.STRIDE + k: x for k, x in u.operand(0).items()}
    for fn in ("abs", "abs_f"):
        for dom, e in ((neg, ng), (mk("xor", (neg, 1), 1), pos)):
            p = core.Problem("%s on %s" % (fn, u.label), "ss_num.cpp", ["HJ_FUNC"], fn, u.ins(1), ii, [dom], {**e, **keep},
                             {0: ss.count(ma), 1: ss.count(ma)}, mode="fp", hash_model=h)
            core.decide(p, res)


def tasks(tier):
    t = [(ddrun, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    t += [(sparse, (h, m)) for m in (0, 1, 4, 13, 0xffff) for h in ("fnv", "collide", "sum", "rev")]
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2, fixed sizes 0..16, run-time sizes %s; sparse scalars with name sets of 0 to 16 names; all bit patterns "
                      "of all values and derivatives" % (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH),
            "assumptions": main.FP_ASSUMPTIONS}
