"""Equivalence of two entry points: the outputs of the reference's paths become the expectation of the other one."""
from . import build, core
from .terms import Node, mk


def expectations(ref, res):
    """[(path conditions, {output: term}, {integer output: value})] of the paths that return; None if ref cannot be encoded."""
    try:
        paths, ex = core.explore(ref)
    except build.CompileError as e:
        res.inconclusive.append(ref.name + ": does not compile: " + str(e)[-300:])
        return None
    res.instrs += ex.instrs
    res.paths += len(paths)
    res.functions |= {f for f in ex.executed if not f.startswith("hjx_")}
    out = []
    for p in paths:
        if p.outcome in ("unsupported", "budget"):
            res.inconclusive.append("%s: %s %s" % (ref.name, p.outcome, p.detail))
            return None
        if p.outcome != "ret":
            continue
        data, idata = p.out
        o, i = {}, {}
        for k in range(len(data) // 8):
            if data[8 * k] is not None:
                o[k] = core.out_node(data, k)
        for k in range(core.NOO):
            if idata[8 * k] is not None:
                i[k] = core.out_int(idata, k)
        out.append((p.conds, o, i))
    return out


def cond(c, v):
    return c if v else mk("xor", (c, 1), 1)


def against(ref, others, res, runs=None):
    """others: [(problem, {output: reference output}, {integer output: reference integer output})]; maps default to identity."""
    exp = expectations(ref, res)
    if exp is None:
        return
    for q, om, im in others:
        dom = list(q.domain)
        fixed, ifixed = dict(q.expect), dict(q.iexpect)
        for conds, o, i in exp:
            q.domain = dom + [cond(c, v) for c, v in conds]
            oo = om if om is not None else {k: k for k in o}
            q.expect = {**fixed, **{k: o[r] for k, r in oo.items() if isinstance(o.get(r), Node)}}
            q.iexpect = {**ifixed, **{k: i[r] for k, r in (im if im is not None else {k: k for k in i}).items() if r in i}}
            core.decide(q, res, may_miss=len(exp) > 1)
            if len(res.violations) > 3:
                return
