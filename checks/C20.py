"""C20: copies, assignments, pickled and restored numbers: equal in every bit, same type, independent of the original."""
from vf import core, dd, main, py, st


def cpp(res, tier, order, ssize, sizes):
    for n in sizes:
        ps = list(st.copies(st.Unit(order, ssize, n)))
        dd.run_all(res, ps)
        for p in ps[:: 4]:
            core.validate(p, res, 1)


def python(res, tier, order, ssize, sizes):
    for n in sizes:
        ps = list(py.restores(py.Unit(order, ssize, n)))
        dd.run_all(res, ps)
        for p in [p for p in ps if p.want == "ret"][:: 3]:
            core.validate(p, res, 1)


def tasks(tier):
    t = []
    for (o, s), ns in dd.by_tu(dd.units(tier)):
        t.append((cpp, (o, s, tuple(ns))))
        t += [(python, (o, s, tuple(ns[k:k + 4]))) for k in range(0, len(ns), 4)]
    t.sort(key=lambda x: -max(x[1][2]))
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed sizes 0..16; run-time sizes %s; every stored bit pattern; run-time assignment over smaller and "
                      "larger numbers; pickle states with 0, 1, 2, 3 items and right and wrong data lengths" %
                      (dd.DYNAMIC if tier == "quick" else dd.DYNAMIC_THOROUGH),
            "assumptions": main.FP_ASSUMPTIONS + [
                "harness/stub/pybind11 hands the state tuple from __getstate__ to __setstate__ as Python's pickle does; a list of floats survives "
                "pickling bit for bit", "copy.copy and copy.deepcopy call __copy__ and __deepcopy__"]}
