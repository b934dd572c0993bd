"""C07: constructors and factories, bit for bit; size/length conversion for symbolic sizes."""
from vf import core, dd, main, st


def run(res, tier, order, ssize, sizes):
    for n in sizes:
        u = st.Unit(order, ssize, n)
        ps = list(st.make(u))
        dd.run_all(res, ps)
        if n in (0, 3):
            for p in ps:
                core.validate(p, res, 1)


def symbolic(res, tier, order):
    dd.run_all(res, st.sym_sizes(order, 2 ** 20 if tier == "quick" else 2 ** 22))


def tasks(tier):
    t = [(run, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    t.sort(key=lambda x: -max(x[1][2]) * (1 + (x[1][1] < 0)))
    return [(symbolic, (1,)), (symbolic, (2,))] + t


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes up to 33; data_length_from_size / size_from_data_length for all "
                      "sizes up to 2^20 and all lengths up to 2^40 (order 2 uses a correctly rounded square root)",
            "assumptions": main.FP_ASSUMPTIONS + ["sqrt is correctly rounded, so that floor(sqrt(m)) is exact for m < 2^48"]}
