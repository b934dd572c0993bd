"""C10: memory: no access outside live storage, no double free, no leak (also when throwing or running out of memory), no
uninitialised output, over the whole catalogue of entry points."""
import itertools

from vf import core, dd, main, ss, st
from vf.spec import var
from vf.terms import bvar

from . import C05, C09, C18, C24

INTS, FRACS = (0, 1, 2, 3, -1), (0.5,)


def mem(ps, fault=False):
    seen = set()
    for p in ps:
        key = (p.src, tuple(p.defs), p.fn, tuple(map(str, p.iins)), p.hash_model, tuple(sorted((k, v.id) for k, v in p.ins.items())))
        if key in seen:
            continue
        seen.add(key)
        p.mode = "mem"
        p.domain = []
        if fault:
            p.fault = bvar("fault", 64)
            p.max_paths = 400
            p.name += " (allocation number 'fault' fails)"
        yield p


def numeric(u):
    yield from dd.arith(u)
    yield from dd.compound(u)
    yield from dd.unary_fns(u)
    yield from dd.other_fns(u, INTS, FRACS)
    for fn, n in (("cmp", 2), ("cmp_ts", 1), ("cmp_st", 1)):
        yield core.Problem("%s on %s" % (fn, u.label), "dd_num.cpp", u.defs + ["HJ_FUNC"], fn, u.ins(2), [u.n] * 3, mode="mem")


def struct(u):
    yield from st.read(u)
    yield from st.write(u, few=3)
    yield from st.make(u)
    yield from st.copies(u)
    yield from st.evals(u)
    yield from st.bad_one(u)
    if u.ssize < 0:
        yield from st.pads(u, [u.n, u.n + 1, u.n + 3, 0])


def ddrun(res, tier, order, ssize, sizes, what):
    for n in sizes:
        dd.run_all(res, mem(numeric(dd.Unit(order, ssize, n)) if what == "num" else struct(st.Unit(order, ssize, n))))


def mism(res, tier, order, ns, fault):
    p, t = C09.pairs(tier)
    dd.run_all(res, mem(st.bad_pairs(st.Unit(order, -1, 0), p if not fault else [(2, 1), (1, 2)], t if not fault else [(1, 1, 2)]), fault))


def ddfault(res, tier, order, n, what):
    """any single allocation fails"""
    if what == "num":
        dd.run_all(res, mem(numeric(dd.Unit(order, -1, n)), True))
    else:
        dd.run_all(res, mem(itertools.chain(struct(st.Unit(order, -1, n))), True))


def sparse_all(ma, mb, mc, h):
    u = ss.Unit(ma, mb, mc, hash_model=h)
    for g in (ss.arith_unary, ss.make, ss.funcs, ss.arith_binary, ss.binary, ss.copies, ss.ternary):
        yield from g(u)
    yield from ss.other(u, INTS, FRACS)
    yield core.Problem("eval on " + u.label, "ss_num.cpp", ["HJ_MISC"], "eval", u.ins(2), [ma, mb, 0, 0, u.all], mode="mem", hash_model=h)


def sparse(res, tier, h, fault, ma):
    m = [0, 1, 4, 5, 8, 13] if tier == "thorough" else [0, 4, 13]
    if fault and tier == "quick":
        m = [0, 4]
    for mb in m:
        dd.run_all(res, mem(sparse_all(ma, mb, m[(ma + mb) % len(m)], h), fault))


def sparse_big(res, tier, h, k):
    ma, mb = C05.BIG[k]
    dd.run_all(res, mem(sparse_all(ma, mb, 0x0f0f0f, h)))


def eigen(res, tier, order, ssize, n, dim, rows):
    v, m = C18.Eig(order, ssize, n, dim, rows), C18.Eig(order, ssize, n, dim, rows, rows, rows)
    e = C24.Unit(0, order, ssize, n, dim, rows)
    v.fixed = m.fixed = e.fixed = ssize >= 0
    dd.run_all(res, mem(itertools.chain(C18.vectors(v, True), C18.matrices(m), C24.entrywise(e))))


def tasks(tier):
    t = []
    for (o, s), ns in dd.by_tu(dd.units(tier)):
        for what in ("num", "struct"):
            for n in ns:
                if tier == "quick" and n > 5 and (n not in (8, 12, 16, 17, 24) or (what, n) == ("num", 24)):
                    continue
                t.append((ddrun, (o, s, (n,), what)))
    t.sort(key=lambda x: -max(x[1][2]))
    f = [(ddfault, (o, n, w)) for o in (1, 2) for n in ((0, 2) if tier == "quick" else (0, 1, 2, 3, 5, 9)) for w in ("num", "struct")]
    f += [(mism, (o, (), x)) for o in (1, 2) for x in (False, True)]
    f += [(sparse, (h, True, m)) for h in ("fnv", "collide") for m in ((4, 13) if tier == "quick" else (0, 4, 5, 13))]
    f += [(sparse_big, (h, k)) for h in C05.HASHES for k in range(len(C05.BIG)) if tier == "thorough" or k < (4 if h == "fnv" else 2)]
    f += [(sparse, (h, False, m)) for h in C05.HASHES for m in (0, 1, 4, 5, 8, 13)]
    e = [(eigen, (o, s, n, d, r)) for o in (1, 2) for s, n in ((2, 2), (-1, 2)) + (() if tier == "quick" else ((1, 1), (-1, 0), (-1, 3)))
         for d, r in ((2, 2), (0, 2)) + (() if tier == "quick" else ((3, 3), (0, 3)))]
    return f + e + t


def describe(tier):
    return {"bounds": "every entry point of the other checks (Eigen vectors and matrices: 2 entries and 2x2); orders 1 and 2, fixed sizes 0..16, run-time sizes up to %d; rejected calls too; "
                      "sparse scalars over the name sets of C05; every double input without restriction; for run-time sized numbers of "
                      "size 0 and 2 and sparse scalars also every single failing allocation (its ordinal is a symbolic variable)"
                      % (24 if tier == "quick" else 32),
            "assumptions": main.COMMON_ASSUMPTIONS[:2] + ["storage is modelled object by object: an access is valid only inside one live "
                                                          "object (heap block, variable, global)",
                                                          "g(i), h(i), h(i,j) inside their range (documented precondition)"]}
