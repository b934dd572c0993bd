"""C19: NDEBUG, HYPERJET_NO_EXCEPTIONS and the presence of Eigen change nothing on valid input, bit for bit; invalid input stops at an
assertion when exceptions are off."""
from vf import core, dd, eqv, main, ss, st

from . import C09

INTS, FRACS = (-1, 0, 1, 2, 3), (0.5,)
VARIANTS = {"NDEBUG": (["NDEBUG"], []), "NO_EXCEPTIONS": (["HYPERJET_NO_EXCEPTIONS"], []),
            "NO_EXCEPTIONS+NDEBUG": (["HYPERJET_NO_EXCEPTIONS", "NDEBUG"], []), "Eigen": (["HJ_EIGEN"], []),
            "Eigen+NO_EXCEPTIONS": (["HJ_EIGEN", "HYPERJET_NO_EXCEPTIONS"], []),
            "Eigen+NDEBUG": (["HJ_EIGEN", "NDEBUG"], [])}


def variant(p, name):
    more = [d for d in VARIANTS[name][0] if d not in p.defs]
    q = core.Problem(p.name + " built with " + name, p.src, p.defs + more, p.fn[4:], p.ins, p.iins, [], {}, {}, mode="fp",
                     hash_model=p.hash_model, nin=p.nin)
    return q


def compare(res, ps, names, validate=0):
    seen = set()
    for k, p in enumerate(ps):
        key = (p.fn, tuple(p.defs), tuple(map(str, p.iins)), tuple(sorted((i, v.id) for i, v in p.ins.items())))
        if key in seen:
            continue
        seen.add(key)
        p.domain, p.expect, p.iexpect, p.mode = [], {}, {}, "fp"
        todo = [(variant(p, v), None, None) for v in names if not ("HJ_EIGEN" in p.defs and v == "Eigen")]
        eqv.against(p, todo, res)
        if validate and k % validate == 0:
            q = variant(p, names[k // validate % len(names)])
            core.validate(q, res, 1)
        if len(res.violations) > 3:
            return


def num(u):
    yield from dd.arith(u)
    yield from dd.compound(u)
    yield from dd.unary_fns(u)
    yield from dd.other_fns(u, INTS, FRACS)
    for fn in ("cmp", "cmp_ts", "cmp_st"):
        yield core.Problem("%s on %s" % (fn, u.label), "dd_num.cpp", u.defs + ["HJ_FUNC"], fn, u.ins(2), [u.n] * 3 + [0, 0], mode="fp")


def struct(u, eigen):
    yield from st.read(u, eigen)
    yield from st.write(u, eigen, few=3)
    yield from st.make(u, eigen)
    yield from st.copies(u)
    if u.ssize < 0:
        yield from st.pads(u, [u.n, u.n + 1, u.n + 3])
    if eigen:
        yield from st.evals(u)


def ddrun(res, tier, order, ssize, n, what, names):
    if what == "num":
        compare(res, num(dd.Unit(order, ssize, n)), names, 17)
    else:
        u = st.Unit(order, ssize, n)
        compare(res, [p for p in struct(u, False) if p.fn not in ("hjx_empty0", "hjx_empty_n")], names, 17)
        noeig = [v for v in names if "HJ_EIGEN" not in VARIANTS[v][0]]
        compare(res, [p for p in struct(u, True) if p.fn not in ("hjx_empty0", "hjx_empty_n")], noeig, 17)


def sparse(res, tier, m, names):
    u = ss.Unit(*m)
    for g in (ss.arith_unary, ss.make, ss.funcs, ss.arith_binary, ss.binary, ss.copies, ss.ternary, lambda u: ss.other(u, INTS, FRACS)):
        compare(res, g(u), names, 23)
    compare(res, [core.Problem("%s on %s" % (fn, u.label), "ss_num.cpp", ["HJ_MISC"], fn, u.ins(2), [m[0], m[1], 0, 0, u.all])
                  for fn in ("cmp", "cmp_ts", "cmp_st", "eval")], names)


def invalid(res, tier, order, ssize, ns):
    """Exceptions off, assertions on: what throws by default stops at an assertion."""
    ps = []
    for n in ns:
        ps += list(st.bad_one(st.Unit(order, ssize, n)))
    if ssize < 0:
        p, t = C09.pairs(tier)
        ps += list(st.bad_pairs(st.Unit(order, -1, 0), p[::3], t))
    for k, p in enumerate(ps):
        q = core.Problem(p.name + " without exceptions", p.src, p.defs + ["HYPERJET_NO_EXCEPTIONS"], p.fn[4:], p.ins, p.iins, [], {}, {},
                         want="assert", mode="fp", nin=p.nin)
        core.decide(q, res)
        if k % 23 == 0:
            core.validate(q, res, 1)
        if len(res.violations) > 3:
            return


def tasks(tier):
    full = tuple(VARIANTS)
    t = []
    sizes = (0, 1, 2, 3, 6) if tier == "quick" else range(0, 17)
    for o in (1, 2):
        for w in ("num", "struct"):
            for n in sizes:
                some = full if tier == "thorough" or n == 2 else ("NDEBUG", "NO_EXCEPTIONS", "Eigen")
                t.append((ddrun, (o, n, n, w, some)))
                t.append((ddrun, (o, -1, n, w, some)))
            if tier == "quick":
                for n in (12, 16):
                    t.append((ddrun, (o, n, n, w, ("NDEBUG", "NO_EXCEPTIONS"))))
            t.append((ddrun, (o, -1, 17, w, ("NDEBUG", "NO_EXCEPTIONS"))))
    for m in ((0, 0, 0), (5, 12, 1), (13, 0, 4), (0xffff, 0xff0000, 0xf)) if tier == "thorough" else ((0, 0, 0), (5, 12, 1), (0xff, 0xff00, 0xf)):
        t.append((sparse, (m, full)))
    for o in (1, 2):
        t.append((invalid, (o, -1, (0, 1, 2, 3, 5))))
        for s in (dd.STATIC if tier == "thorough" else (0, 1, 2, 3, 5, 8, 16)):
            t.append((invalid, (o, s, (s,))))
    t.sort(key=lambda x: -(x[1][2] if x[0] is ddrun else 20))
    return t


def describe(tier):
    return {"bounds": "builds: default against %s; orders 1 and 2, fixed and run-time sizes %s; sparse scalars with 4 name-set triples; every "
                      "entry point of C01-C08, C11, C12, every input bit pattern; invalid calls of C09 in the build without exceptions"
                      % (", ".join(VARIANTS), "0..3, 6, 12, 16, 17" if tier == "quick" else "0..17"),
            "assumptions": main.FP_ASSUMPTIONS}
