"""C09: invalid sizes, lengths and mismatched operands throw and touch nothing."""
from vf import core, dd, main, st


def pairs(tier):
    top = 5 if tier == "quick" else 8
    p = [(i, j) for i in range(top) for j in range(top) if i != j] + [(16, 17), (17, 16), (0, 16), (24, 1)]
    t = [(1, 1, 2), (2, 1, 1), (1, 2, 1), (0, 0, 1), (3, 3, 2), (2, 2, 4), (1, 2, 3), (3, 2, 1), (2, 3, 2), (5, 5, 0), (5, 0, 5), (0, 5, 5)]
    return p, t


def mismatched(res, tier, order, part):
    p, t = pairs(tier)
    ps = list(st.bad_pairs(st.Unit(order, -1, 0), p[part::3], t[part::3]))
    dd.run_all(res, ps)
    for q in ps[::9]:
        core.validate(q, res, 1)


def one(res, tier, order, ssize, sizes):
    for n in sizes:
        ps = list(st.bad_one(st.Unit(order, ssize, n)))
        dd.run_all(res, ps)
        if n == 2:
            for q in ps[::4]:
                core.validate(q, res, 1)


def symbolic(res, tier, order):
    dd.run_all(res, st.sym_bad(order))
    dd.run_all(res, st.sym_sizes(order))


def tasks(tier):
    t = [(symbolic, (1,)), (symbolic, (2,))]
    for o in (1, 2):
        t += [(mismatched, (o, k)) for k in range(3)]
        t.append((one, (o, -1, (0, 1, 2, 3, 5) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 7, 8, 12))))
        t += [(one, (o, s, (s,))) for s in dd.STATIC]
    return t


def describe(tier):
    return {"bounds": "mismatched pairs of run-time sizes up to %d plus (16,17), (24,1) with all entries symbolic, and every pair of "
                      "different symbolic sizes up to 2^15; negative sizes down to -2^40 symbolic; data lengths 0..29 and all symbolic "
                      "lengths up to 2^40; fixed sizes 0..16 with listed wrong sizes; wrong matrix shapes listed" % (4 if tier == "quick" else 7),
            "assumptions": main.FP_ASSUMPTIONS + ["g(i), h(i), h(i,j) out of range are documented preconditions (asserts), not covered",
                                                  "symbolic-size queries run on numbers of which only the size field is set; "
                                                  "counterexamples are replayed on fully built numbers"]}
