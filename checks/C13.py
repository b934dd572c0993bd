"""C13: first and second order, fixed and run-time sized, sparse and hyper-dual, free and member functions agree (exact real arithmetic)."""
from vf import core, dd, eqv, main, ss, st
from vf.spec import X

INTS, FRACS = (-2, -1, 0, 1, 2, 3), (0.5, 1.5)
GROUPS = {"arith": dd.arith, "compound": dd.compound, "unary": dd.unary_fns, "other": lambda u: dd.other_fns(u, INTS, FRACS),
          "eval": lambda u: st.evals(st.Unit(u.order, u.ssize, u.n))}


def problems(group, order, ssize, n):
    ps = list(GROUPS[group](dd.Unit(order, ssize, n)))
    for p in ps:
        p.expect, p.iexpect = {}, {}
    return ps


def key(p):
    return (p.fn, tuple(map(str, p.iins)), str(p.ins.get(3 * dd.STRIDE)))


def dedup(ps):
    return {key(p): p for p in reversed(ps)}


def run(res, tier, n, group):
    R = dedup(problems(group, 2, -1, n))
    others = {}
    if n <= 16:
        others["2s"] = dedup(problems(group, 2, n, n))
        others["1s"] = dedup(problems(group, 1, n, n))
    others["1d"] = dedup(problems(group, 1, -1, n))
    first = {k: k for k in range(n + 1)}
    for k, r in list(R.items()):
        todo = []
        for o, ps in others.items():
            q = ps.get(k)
            # compound assignment from an entry of the number itself: only entries both orders have
            if q is None or (group == "eval" and o[0] == "1"):
                continue
            if o == "2s":
                todo.append((q, {i: i for i in range(core_len(n))}, {0: 0, 1: 1}))
            else:
                todo.append((q, first, {0: 0}))
            q.name += " against " + r.name
        if r.fn.endswith("_f") and (r.fn[:-2],) + k[1:] in R:
            pass
        elif (r.fn + "_f",) + k[1:] in R:
            q = dedup(problems(group, 2, -1, n))[(r.fn + "_f",) + k[1:]]
            q.name += " against the member function"
            todo.append((q, {i: i for i in range(core_len(n))}, {0: 0, 1: 1}))
        eqv.against(r, todo, res)
        if len(res.violations) > 3:
            return
    if group == "eval" and n <= 16:
        for r in problems(group, 1, -1, n):
            eqv.against(r, [(q, {0: 0}, {}) for q in problems(group, 1, n, n)], res)
    # free against member, other types
    for o, ps in others.items():
        for k, r in ps.items():
            q = ps.get((r.fn + "_f",) + k[1:])
            if q is not None:
                q2 = core.Problem(q.name + " against the member function", q.src, q.defs, q.fn[4:], q.ins, q.iins, [])
                r2 = core.Problem(r.name, r.src, r.defs, r.fn[4:], r.ins, r.iins, [])
                r2.domain = q2.domain = dict_domain(group, o, n, r)
                eqv.against(r2, [(q2, {i: i for i in range(n + 1 if o[0] == "1" else core_len(n))}, {0: 0, 1: 1})], res)


_dom = {}


def dict_domain(group, o, n, r):
    g = (group, o, n)
    if g not in _dom:
        _dom[g] = dedup(problems(group, int(o[0]), n if o[1] == "s" else -1, n))
    return list(_dom[g][key(r)].domain)


def core_len(n):
    return (n + 1) * (n + 2) // 2


def sparse(res, tier, group, n, ma, mb, mc, h):
    """operand q of the dense number has zero slots where the sparse one has no name"""
    u = dd.Unit(1, n, n)
    for q, m in zip((u.a, u.b, u.c), (ma, mb, mc)):
        for k in range(n):
            if not m >> k & 1:
                q[1 + k] = X(0.0)
    full = (1 << n) - 1
    for r in dedup(list(GROUPS[group](u))).values():
        fn = r.fn[4:]
        if fn.endswith("_e"):
            continue
        r.expect, r.iexpect = {}, {}
        ins = {}
        for q in range(3):
            m = (ma, mb, mc)[q]
            for k in range(n + 1):
                if q * dd.STRIDE + k in r.ins and (k == 0 or m >> (k - 1) & 1):
                    ins[q * ss.STRIDE + k] = r.ins[q * dd.STRIDE + k]
        if 3 * dd.STRIDE in r.ins:
            ins[3 * ss.STRIDE] = r.ins[3 * dd.STRIDE]
        p = core.Problem("sparse %s names %x/%x/%x hash %s against %s" % (fn, ma, mb, mc, h, r.name), "ss_num.cpp",
                         ["HJ_" + ("FUNC" if group in ("unary", "other") else "ARITH")], fn, ins, [ma, mb, mc, r.iins[3], full],
                         r.domain, {}, {}, hash_model=h, nin=3 * ss.STRIDE + 1)
        eqv.against(r, [(p, {k: k for k in range(n + 1)}, {})], res)
        if len(res.violations) > 3:
            return


def tasks(tier):
    ns = (0, 1, 2, 3, 4, 5, 8, 12, 16, 17) if tier == "quick" else list(range(0, 18)) + [20, 24, 32]
    t = [(run, (n, g)) for n in ns for g in GROUPS]
    t.sort(key=lambda x: -x[1][0])
    sets = [(3, 1, 6, 0), (4, 15, 15, 15), (4, 5, 10, 9), (2, 0, 3, 1), (0, 0, 0, 0), (8, 0xf0, 0x3c, 0xff)]
    hs = ("fnv", "collide") if tier == "quick" else ("fnv", "collide", "sum", "rev")
    return t + [(sparse, (g, n, a, b, c, h)) for n, a, b, c in sets for g in ("arith", "compound", "unary", "other") for h in hs]


def describe(tier):
    return {"bounds": "sizes %s; the run-time sized second-order number is the reference for the fixed-size second-order and both "
                      "first-order types; sparse scalars with up to 8 names against first-order numbers; every operation of C01-C04, C12 "
                      "inside its real domain" % ("0..5, 8, 12, 16, 17" if tier == "quick" else "0..17, 20, 24, 32"),
            "assumptions": main.REAL_ASSUMPTIONS}
