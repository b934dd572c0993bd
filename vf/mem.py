"""Memory decider (mode 'mem'): on every path no invalid access, no double free, no leak, no uninitialised output.
Every other outcome (a result, a thrown exception) is acceptable."""
import random

import z3

from . import fp, real, terms
from .terms import Node

ACCEPT = ("ret", "throw")


def decide_path(p, path, res, names):
    from . import core
    sorts = {n: v.sort for n, v in terms.variables(p.terms()).items()}
    names = sorted(sorts)
    conds = list(path.conds)
    rnd = random.Random(core.SEED)
    res.asserted += 1

    def model():
        ctx = fp.Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
        except fp.NotFp:
            return "unknown", None
        real.STATS.fp_queries += 1
        r, m = real.check(zc, 20000)
        if r != "sat":
            return r, None
        return r, {n: (fp.model_val(m, ctx.vars[n]) if n in ctx.vars else (0.75 if sorts[n] == "d" else 0)) for n in names}

    env = {n: 0.75 if sorts[n] == "d" else 0 for n in names}
    if conds:
        key = ("memreach", real.canon([terms.mk("c", (c, v), 1) for c, v in conds])[0])
        r = core._cache.get(key)
        if r is None:
            r, env = model()
            core._cache[key] = r
        else:
            real.STATS.cached += 1
            env = None
        if r == "unsat":
            res.discharged += 1
            return False

    def replay(what):
        e0 = env
        if conds and e0 is None:
            e0 = model()[1]
        n = 0
        for e in fp.points(names, e0, rnd, sorts):
            if not fp.conds_ok(conds, e):
                continue
            n += 1
            if core.memory_violation(p, path, e, res, what):
                return True
            if n >= 2:
                break
        res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, what))
        return True

    if path.outcome not in ACCEPT:
        return replay("%s: %s" % (path.outcome, path.detail))
    if path.leaks:
        return replay("leak of %d heap objects after %s" % (len(path.leaks), path.outcome))
    if path.out is not None:
        data, idata = path.out
        for kind, d, get in (("output", data, core.out_node), ("integer output", idata, core.out_int)):
            for k in range(len(d) // 8):
                if d[8 * k] is None and d[8 * k + 7] is None:
                    continue
                v = get(d, k)
                res.asserted += 1
                if v == "mixed" or v == "unset" or (isinstance(v, Node) and has_undef(v)):
                    return replay("%s entry %d is uninitialised" % (kind, k))
                res.discharged += 1
    res.discharged += 1
    if len(res.samples) < 3 and conds:
        res.samples.append({"problem": p.name, "conditions": [(terms.show(c, 4)[:120], v) for c, v in conds], "outcome": path.outcome,
                            "verdict": "all accesses in live storage, nothing leaked, all outputs initialised"})
    return True


_memo = {}


def has_undef(n):
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen or _memo.get(x.id) is False:
            continue
        seen.add(x.id)
        if x.op == "undef":
            return True
        st += [a for a in x.args if isinstance(a, Node)]
    for i in seen:
        _memo[i] = False
    return False
