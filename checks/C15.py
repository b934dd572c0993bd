"""C15: hyperjet.variables of the Python module: one entry per value, of the requested order and size, value and unit gradient."""
from vf import build, core, dd, main, py
from vf.spec import X, length, var


def problem(n, order, form, want="ret"):
    v = [var("v%d" % k) for k in range(n)]
    o = 2 if form >= 4 else order
    e, ie = {}, {0: py.LIST, 1: n}
    for i in range(n):
        at = 10 * (i + 1)
        if o == 0:
            ie[at] = py.FLT
            e[400 * i] = v[i]
            continue
        L = length(o, n)
        ie.update({at: py.OBJ, at + 1: o, at + 2: n if 1 <= n <= 15 else -1, at + 3: n, at + 4: L, at + 5: 1})
        for k in range(L):
            e[400 * i + k] = v[i] if k == 0 else X(1.0 if k == 1 + i else 0.0)
    if want == "throw":
        e, ie = {}, {}
    p = core.Problem("variables of %d values, order %s, call form %d" % (n, order if form < 4 else "default", form), "main_py.cpp",
                     ['HJ_MAIN="%s/python/src/main.cpp"' % build.REPO], "variables", dict(enumerate(v)), [n, order, form], (), e, ie,
                     want=want, mode="fp", extra=py.STUB, leaks=False, nin=64)
    p.setup, p.throw_type = "hjx_setup", None
    return p


def run(res, tier, n):
    ps = [problem(n, o, f) for o in (0, 1, 2) for f in (0, 1, 2, 3)] + [problem(n, 0, f) for f in (4, 5)]
    ps += [problem(n, o, 0, "throw") for o in (-1, 3, -2, 4, 100, 2 ** 31, -2 ** 62)]
    dd.run_all(res, ps)
    if not res.violations:
        for p in ps[:14:5]:
            core.validate(p, res, 1)


def counts(tier):
    return list(range(0, 20)) + [22] if tier == "quick" else list(range(0, 27))


def tasks(tier):
    return [(run, (n,)) for n in reversed(counts(tier))]


def describe(tier):
    return {"bounds": "lists of %s values, all values symbolic; orders 0, 1, 2, the default and 7 invalid orders; positional and keyword calls"
                      % ("0..19 and 22" if tier == "quick" else "0..26"),
            "assumptions": main.FP_ASSUMPTIONS + [
                "harness/stub/pybind11 fills defaults, converts the list argument and builds Python lists as pybind11 does; list.extend appends "
                "in order", "the classes registered by each bind_ddscalar_Nd are those of C14"]}
