"""C08: padding and resizing of run-time sized numbers, bit for bit."""
from vf import core, dd, main, st


def run(res, tier, order, n, ms):
    u = st.Unit(order, -1, n)
    ps = list(st.pads(u, ms))
    dd.run_all(res, ps)
    if n in (0, 2, 5):
        for p in ps[:6]:
            core.validate(p, res, 1)


def tasks(tier):
    t = []
    top = 9 if tier == "quick" else 20
    for o in (1, 2):
        for n in range(top):
            t.append((run, (o, n, tuple(sorted(set(range(0, n + 7)) | {16, 24})))))
        t.append((run, (o, 17, (0, 16, 17, 18, 24))))
        t.append((run, (o, 24, (24, 23, 2))))
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2; sizes 0..%d, 17 and 24, padded to every size up to 6 larger, 16 and 24; resized also to smaller "
                      "sizes; all entries symbolic" % (8 if tier == "quick" else 19), "assumptions": main.FP_ASSUMPTIONS}
