"""C14: every Python-visible name does what it names. The binding sources of the repository run on a recording pybind11; each name is
called symbolically and compared, bit for bit, with the C++ operation (harness/dd_num.cpp, ss_num.cpp) or an explicit expectation."""
import itertools
import random

from checks import C17
from vf import build, core, dd, eqv, fp, main, py, ss, terms, text
from vf.terms import mk


def units(tier):
    out = [(o, n, n) for o in (1, 2) for n in range(17)]
    return out + [(o, -1, n) for o in (1, 2) for n in ((0, 1, 2, 3, 6) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 17))]


def structural(res, tier, order, ssize, n):
    u = py.Unit(order, ssize, n)
    ps = list(py.structural(u)) + (list(py.registration(u)) if order == 1 and n <= 16 else [])
    for k, p in enumerate(ps):
        core.decide(p, res)
        if len(res.violations) > 3:
            return
        if n in (0, 2, 3) and k % 9 == 0 and p.want == "ret":
            core.validate(p, res, 1)
    py.decide_pairs(py.evals(u), res)
    p = u.prob("call", "__repr__", [py.O(order, n, 0)], u.ins(1), {}, {})
    decide_repr(p, res, u.a[0].n)


def numeric(res, tier, order, ssize, n):
    u = py.Unit(order, ssize, n)
    pairs = list(py.numeric(u))
    py.decide_pairs(pairs, res)
    if not res.violations and n in (1, 3):
        for p, r, om, im in pairs[::10]:
            core.validate(p, res, 1)


def sparse(res, tier, masks, h):
    u = py.SUnit(*masks, hash_model=h)
    ps = list(py.sparse_structural(u))
    for p in ps:
        core.decide(p, res)
        if len(res.violations) > 3:
            return
    pairs = list(py.sparse_numeric(u))
    py.decide_pairs(pairs, res)
    if h == "fnv" and not res.violations:
        for p in ps[::9] + [x[0] for x in pairs[::12]]:
            core.validate(p, res, 1)
    p = u.prob("call", "__repr__", [py.Sp(u.m[0], 0)], u.pins(), {}, {})
    decide_repr(p, res, u.f[0].n, {k: v.n for k, v in u.d[0].items()})


def right(t, v, ders):
    if ders is None:
        return t == "%g" % v + "hj"
    parts = [(" " if d < 0 else "+")[:1] + "%g*d%s" % (d, C17.NAMES[k].decode()) for k, d in ders.items()]
    parts = [(" " + x if x[0] == "+" else x) for x in parts]
    return any(t == "%g" % v + "".join(q) for q in itertools.permutations(parts))


def decide_repr(p, res, value, ders=None):
    res.problems += 1
    p.externs = text.externs(lambda ex: None)
    try:
        paths, ex = core.explore(p)
    except build.CompileError as e:
        res.inconclusive.append(p.name + ": does not compile: " + str(e)[-300:])
        return
    res.paths += len(paths)
    res.instrs += ex.instrs
    res.reach += 1
    rnd = random.Random(core.SEED)
    names = sorted(terms.variables(list(p.ins.values())))
    for path in paths:
        ask = C17.Asker(list(path.conds))
        if path.conds and ask.bad([C17.icmp_false()])[0] == "unsat":
            continue
        res.asserted += 1
        why = None
        if path.outcome != "ret":
            why = "%s %s" % (path.outcome, path.detail)
        else:
            sts = [e for e in path.events if e[1] == "str"]
            if len(sts) != 1:
                why = "the text is not one string stream's"
            else:
                m = sts[0][2]
                got = [core.out_int(path.out[1], k) for k in [100, 102] + [200 + i for i in range(len(m))]]
                el = text.flatten(path.events, sts[0][0])
                st0 = (6, text.STD_FLAGS, 0)
                if got != [py.STR, len(m)] + list(m):
                    why = "the returned value is not that text"
                else:
                    facts = C17.match_dd(el, value, st0) if ders is None else C17.match_ss(el, value, ders, dict(enumerate(C17.NAMES)), st0, ask)
                    if facts is None:
                        why = "other insertions than documented: " + C17.describe_el(el)
                    else:
                        r, env = ask.bad(facts)
                        if r == "unsat":
                            res.discharged += 1
                            continue
                        why = "an inserted value or sign differs"
        for k in range(40):
            env = {n: rnd.choice((rnd.uniform(-3, 3), 0.5, -2.0, 1e9, -0.25)) for n in names}
            if not fp.conds_ok(path.conds, env):
                continue
            nat = core.run_native(p, env)
            t = "".join(chr(nat.oo.get(200 + i, 63)) for i in range(min(nat.oo.get(102, 0), 900)))
            d = None if ders is None else {q: terms.evaluate(n, env) for q, n in ders.items()}
            if nat.outcome != "ret" or nat.oo.get(100) != py.STR or not right(t, terms.evaluate(value, env), d):
                core.violation(res, p, env, "text", "the number's text form", nat.outcome + " " + repr(t), why)
                return
        res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, why))


def tasks(tier):
    t = []
    for u in units(tier):
        t += [(numeric, u), (structural, u)]
    t.sort(key=lambda x: -x[1][2])
    ms = [(0, 0, 0), (1, 2, 4), (3, 6, 9), (0x800005, 0, 7), (7, 7, 7)]
    if tier == "thorough":
        ms += [(0x1f, 0x3, 0x800001), (0, 0x1f, 0x8001), (0xff, 0x0f, 0xf0)]
    return t + [(sparse, (m, h)) for m in ms for h in ("fnv", "collide", "rev")]


def describe(tier):
    return {"bounds": "all 34 hyper-dual classes (orders 1, 2; sizes 0..16 and run-time size with numbers of size %s) and SScalar (name sets up "
                      "to %d names); every bound method, operator, property, static, constructor and keyword; operands number, float, int; "
                      "all entries symbolic" % ("0..6" if tier == "quick" else "0..17", 4 if tier == "quick" else 8),
            "assumptions": main.FP_ASSUMPTIONS + [
                "harness/stub/pybind11 selects overloads, fills defaults and converts arguments as pybind11 2.11 does (checked against the "
                "real module during development)", "Python's rule for reflected and in-place operators",
                "pybind11 itself, the CPython glue and numpy's dispatch by method name are outside"]}
