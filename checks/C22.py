"""C22: no hidden state: calls write nothing that another call or another thread can see, and give the same after any other call."""
from checks import C05
from vf import core, dd, main, race, ss, st

READERS = {"read", "eread", "eval", "pad_left", "pad_right", "ctor_copy", "assign", "ctor_data", "create", "ctor_f", "ctor_conv", "zero0",
           "zero_n", "constant", "constant_n", "variable_n", "variable", "variables", "empty0", "empty_n", "list", "vars_array",
           "from_gradient", "from_arrays", "dfl", "copy", "value", "fromdata"}


def both(res, ps):
    for p in ps:
        if p.want != "ret":
            continue
        q = race.shared(p)
        core.decide(q, res)
        if q.touched:
            core.decide(p, res)         # static state in use: recorded, and decided again after other calls
        if len(res.violations) > 3:
            return


def dense(res, tier, order, ssize, sizes):
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        ps = list(dd.arith(u)) + list(dd.compound(u)) + list(dd.unary_fns(u)) + list(dd.other_fns(u, (-1, 0, 2, 3), (0.5,)))
        both(res, ps)
        u = st.Unit(order, ssize, n)
        ps = list(st.read(u)) + list(st.make(u)) + list(st.copies(u)) + list(st.evals(u))
        if ssize < 0:
            ps += list(st.pads(u, (n, n + 1, n + 3)))
        both(res, [p for p in ps if p.fn[4:] in READERS])


def sparse(res, tier, hash_model, k):
    m3 = C05.masks(C05.NAMES3)
    ps = []
    for a in m3[k::2]:
        u = ss.Unit(a, hash_model=hash_model)
        ps += list(ss.arith_unary(u)) + list(ss.funcs(u)) + list(ss.other(u, (-1, 0, 2, 3), (0.5,))) + list(ss.make(u))
        for b in m3[::2] if tier == "quick" else m3:
            u = ss.Unit(a, b, m3[3], hash_model=hash_model)
            ps += list(ss.arith_binary(u)) + list(ss.binary(u)) + list(ss.copies(u)) + list(ss.ternary(u))
    both(res, [p for p in ps if p.fn[4:] not in ("selfassign", "move", "assign")])


def tasks(tier):
    sizes = (1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5, 8, 16)
    run = (0, 1, 2, 3, 5) if tier == "quick" else tuple(range(9)) + (12, 17, 24)
    t = [(dense, (o, -1, run)) for o in (2, 1)] + [(dense, (o, n, (n,))) for n in sizes[::-1] for o in (2, 1)]
    return t + [(sparse, (h, k)) for h in (("fnv",) if tier == "quick" else C05.HASHES) for k in (0, 1)]


def describe(tier):
    return {"bounds": "every operation of C01-C08 and C12 at fixed sizes %s and run-time sizes %s, orders 1 and 2, and of C05 over subsets of 3 "
                      "names; up to 3 operands shared by the threads; sequences of two calls where static state is in use; all values "
                      "symbolic" % (("1..3", "0..3, 5") if tier == "quick" else ("0..5, 8, 16", "0..8, 12, 17, 24")),
            "assumptions": main.REAL_ASSUMPTIONS[:len(main.COMMON_ASSUMPTIONS)] + [
                "calls that write nothing another thread can reach do not influence each other, so every schedule gives what some sequence gives",
                "libm, operator new and std::locale are free of races and of visible state"]}
