"""C06: accessors and setters of DDScalar, bit for bit; index formulas for symbolic sizes."""
from vf import core, dd, main, st


def run(res, tier, order, ssize, sizes):
    for n in sizes:
        u = st.Unit(order, ssize, n)
        ps = list(st.read(u)) + list(st.write(u, few=5 if tier == "quick" else 9))
        dd.run_all(res, ps)
        if n == 3:
            for p in ps[::5]:
                core.validate(p, res, 1)


def symbolic(res, tier, order):
    dd.run_all(res, st.sym_access(order))


def tasks(tier):
    t = [(run, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    return [(symbolic, (1,)), (symbolic, (2,))] + t


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes up to 33; every read entry; writes through every setter, at every "
                      "index for sizes <= %d and at first, second, middle and last indices above; g(i), h(i), h(i,j) positions also for "
                      "symbolic size <= 2^15 and symbolic indices (run-time sized type)" % (5 if tier == "quick" else 9),
            "assumptions": main.FP_ASSUMPTIONS + ["symbolic-size queries run the accessor on a number of which only the size field is set; "
                                                  "counterexamples are replayed on fully built numbers"]}
