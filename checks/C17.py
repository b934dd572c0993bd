"""C17: text form: the stream is modelled as a recorder of what is inserted under which format state; to_string on a modelled
string stream."""
import itertools
import random

import z3

from vf import build, core, dd, fp, main, real, ss, terms, text
from vf.terms import Node, bvar, mk

PREC, FLAGS, WIDTH = bvar("prec", 64), bvar("flags", 32), bvar("width", 64)
FIXFLAGS = 0x4d04 ^ 0xffffffff      # showpoint, showpos, fixed, scientific, uppercase vary


def icmp(p, a, b):
    return mk("icmp", (p, a, b), 1)


DOMAIN = [icmp("sge", PREC, 0), icmp("sle", PREC, 17), icmp("sge", WIDTH, 0), icmp("sle", WIDTH, 40),
          icmp("eq", mk("and", (FLAGS, FIXFLAGS), 32), text.STD_FLAGS)]


def make_stream(ex):
    s = text.new_stream(ex, PREC, FLAGS, WIDTH)
    ex.userdata["stream"] = s
    return s


def final(ex):
    i = text.ios_of(ex, ex.userdata["stream"])
    ex.userdata["final"] = (text.rd(ex, i + text.PREC, 64), text.rd(ex, i + text.FLAGS, 32), text.rd(ex, i + text.WIDTH, 64))


def problem(name, defs, fn, ins, iins, sparse, h="fnv"):
    p = core.Problem(name, "text.cpp", defs, fn, ins, (list(iins) + [0] * 5)[:5] + [PREC, mk("zext", (FLAGS,), 64), WIDTH],
                     DOMAIN if fn == "print" else [], {}, {}, mode="fp", hash_model=h, native_fn=fn + "_n",
                     nin=(ss.STRIDE if sparse else dd.STRIDE) + 1)
    p.native_defs = ["NATIVE"]
    if fn == "print":
        p.at_end = final
    p.externs = text.externs(make_stream)
    return p


class Asker:
    def __init__(self, conds):
        self.conds = conds

    def bad(self, what):
        """what: list of (got, expected) that must be equal, or 1-bit terms that must be true; returns (verdict, env)"""
        todo = [w for w in what if not (isinstance(w, tuple) and (w[0] is w[1] or w[0] == w[1]))]
        if not todo:
            return "unsat", None
        ctx = fp.Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in self.conds]
            q = []
            for w in todo:
                if isinstance(w, tuple):
                    s = next(x.sort for x in w if isinstance(x, Node))
                    a, b = [ctx.val(x) if isinstance(x, Node) else z3.BitVecVal(x, s) for x in w]
                    q.append(a != b)
                else:
                    q.append(z3.Not(ctx.cond(w)))
        except (fp.NotFp, StopIteration) as e:
            return "unknown" if not isinstance(e, StopIteration) else "sat", None
        real.STATS.fp_queries += 1
        r, m = real.check(zc + [z3.Or(q)], 20000)
        if r == "sat":
            return r, {n: fp.model_val(m, v) for n, v in ctx.vars.items()}
        return r, None


def match_dd(el, value, st0):
    """facts that must hold, or None when the shape is wrong"""
    if len(el) != 3 or el[1:] != [b"h", b"j"] or el[0][0] != "d":
        return None
    return [(el[0][1], value), (el[0][2][0], st0[0]), (el[0][2][1], st0[1]), (el[0][2][2], st0[2])]


def match_ss(el, value, ders, names, st0, ask):
    if not el or el[0][0] != "d":
        return None
    base = [(el[0][1], value), (el[0][2][0], st0[0]), (el[0][2][1], st0[1]), (el[0][2][2], st0[2])]
    zero = mk("const", (0,), "d")

    def rest(at, left):
        if not left:
            return [] if at == len(el) else None
        if at >= len(el) or el[at] != b" ":
            return None
        plus = at + 1 < len(el) and el[at + 1] == b"+"
        d = at + 1 + plus
        if d >= len(el) or el[d][0] != "d":
            return None
        fallback = None
        for k in sorted(left, key=lambda k: ders[k] is not el[d][1]):
            t = [bytes([c]) for c in b"*d" + names[k]]
            if el[d + 1:d + 1 + len(t)] != t:
                continue
            r = rest(d + 1 + len(t), left - {k})
            if r is None:
                continue
            neg = mk("fcmp", ("olt", ders[k], zero), 1)
            st = el[d][2]
            f = [(el[d][1], ders[k]), (st[0], st0[0]), (st[1], st0[1]), (st[2], 0), mk("xor", (neg, 1), 1) if plus else neg] + r
            if ask.bad(f)[0] == "unsat":
                return f
            fallback = fallback or f
        return fallback
    r = rest(1, frozenset(ders))
    return None if r is None else base + r


def decide(p, res, value, ders=None):
    res.problems += 1
    try:
        paths, ex = core.explore(p)
    except build.CompileError as e:
        res.inconclusive.append(p.name + ": does not compile: " + str(e)[-300:])
        return
    res.paths += len(paths)
    res.instrs += ex.instrs
    res.functions |= {f for f in ex.executed if not f.startswith("hjx_")}
    names = dict(enumerate(NAMES))
    is_print = p.fn == "hjx_print"
    reached = False
    for path in paths:
        conds = [(d, True) for d in p.domain] + list(path.conds)
        ask = Asker(conds)
        if path.conds:
            r, env = ask.bad([icmp_false()])
            if r == "unsat":
                continue
        reached = True
        res.asserted += 1
        why, env, facts = None, None, None
        if path.outcome in ("unsupported", "budget"):
            why = path.outcome + ": " + path.detail
        elif path.outcome != "ret":
            why = "%s %s" % (path.outcome, path.detail)
        else:
            idata = path.out[1]
            sts = [e for e in path.events if e[1] == "str"]
            if is_print:
                s, st0 = path.userdata["stream"], (PREC, FLAGS, WIDTH)
            else:
                if len(sts) != 1:
                    why = "the text is not taken from one string stream once"
                    s = None
                else:
                    s, st0 = sts[0][0], (6, text.STD_FLAGS, 0)
                    m = sts[0][2]
                    got = [core.out_int(idata, k) for k in range(len(m) + 1)]
                    if got != [len(m)] + list(m):
                        why = "the returned string is not the stream's text"
            if why is None:
                el = text.flatten(path.events, s)
                facts = match_dd(el, value, st0) if ders is None else match_ss(el, value, ders, names, st0, ask)
                if facts is None:
                    why = "the sequence of insertions is not the documented one: " + describe_el(el)
                elif is_print:
                    fin = path.userdata["final"]
                    facts = facts + [(fin[0], PREC), (fin[1], FLAGS), (fin[2], 0)]
                    if core.out_int(idata, 2000) != 1:
                        why = "operator<< does not return its stream"
            if why is None:
                r, env = ask.bad(facts)
                if r == "unsat":
                    res.discharged += 1
                    if len(res.samples) < 3:
                        res.samples.append({"problem": p.name, "insertions": describe_el(el), "conditions":
                                            [terms.show(c, 4)[:120] for c, v in path.conds], "verdict": "unsat"})
                    continue
                why = "an inserted value, sign or format state differs" if r == "sat" else "solver gave no answer"
        # replay
        sorts = {n: v.sort for n, v in terms.variables(list(p.ins.values())).items()}
        base = {"prec": 6, "flags": text.STD_FLAGS, "width": 0}
        if env is None and path.conds:
            env = ask.bad([icmp_false()])[1]
        tries = []
        if env is not None:
            tries.append({**base, **{n: 0.75 for n in sorts}, **env})
        for fmt in ((6, 0), (3, 0x4), (9, 0x100), (6, 0x800)):
            for w in (0, 12):
                rnd = random.Random(core.SEED)
                for v in ([0.1, -0.3, 1e-8, 12345.678901, 1e300, -0.0, 2.0], [-1.5, 2.5, -3.25, 0.5], [1234567.0, -1e-5, 3.0], [0.0]):
                    tries.append({**{n: v[i % len(v)] for i, n in enumerate(sorted(sorts))}, "prec": fmt[0],
                                  "flags": text.STD_FLAGS | fmt[1], "width": w})
        done = False
        for e in tries:
            if not fp.conds_ok(conds, e):
                continue
            nat = core.run_native(p, e, native_fn=p.native_fn)
            if nat.outcome != "ret" or nat.oo.get(3000) != 1 or (is_print and nat.oo.get(2000) != 1):
                n = nat.oo.get(3001, 0)
                t = "".join(chr(nat.oo.get(3002 + k, 63)) for k in range(min(n, 900)))
                core.violation(res, p, e, "text", "value%s" % ("hj" if ders is None else " +/- terms"), nat.outcome + " " + repr(t), why)
                done = True
                break
        if done:
            return
        res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, why))
    if reached:
        res.reach += 1
    else:
        res.inconclusive.append(p.name + ": no feasible path")


def validate(p, res):
    rnd = random.Random(core.SEED)
    names = sorted(terms.variables(list(p.ins.values())))
    for fmt, w in ((0, 0), (0x904, 12)):
        if fmt & 0x104 == 0x104:
            fmt = 0x804
        e = {**{n: rnd.uniform(-3, 3) for n in names}, "prec": 5, "flags": text.STD_FLAGS | fmt, "width": w}
        nat = core.run_native(p, e, native_fn=p.native_fn)
        if nat.outcome == "ret" and nat.oo.get(3000) == 1:
            res.validated += 1
        else:
            res.inconclusive.append("ENCODING MISMATCH %s: native text differs: %s" % (p.name, nat.outcome))


def icmp_false():
    """a condition that is never true: asking for its failure asks whether the path can be taken"""
    return mk("fcmp", ("one", DUMMY, DUMMY), 1)


DUMMY = terms.fvar("dummy")


def describe_el(el):
    return " ".join(e.decode("latin1") if isinstance(e, bytes) else "%s(%s)" % (e[0], terms.show(e[1], 3) if isinstance(e[1], Node) else e[1])
                    for e in el)[:300]


NAMES = [b"x", b"y", b"a_rather_long_variable_name", b"", b"a_rather_long_variable_namf", b"xy", b"yx", b"x1", b"x2", b"x3", b"x4", b"x5",
         b"x6", b"x7", b"x8", b"x9", b"n10", b"n11", b"n12", b"n13", b"n14", b"n15", b"n16",
         b"an_even_longer_variable_name_that_needs_the_heap"]


def ddrun(res, tier, order, ssize, sizes):
    for n in sizes:
        u = dd.Unit(order, ssize, n)
        for fn in ("print", "str"):
            p = problem("%s on %s" % (fn, u.label), u.defs, fn, u.ins(1), [n], False)
            decide(p, res, u.a[0].n)
            if n in (0, 3) and not res.violations:
                validate(p, res)


def sparse(res, tier, h, masks):
    for m in masks:
        u = ss.Unit(m, hash_model=h)
        for fn in ("print", "str"):
            p = problem("%s on %s" % (fn, u.label), ["HJ_SPARSE"], fn, u.ins(1), [m, 0, 0, 0, u.all], True, h)
            decide(p, res, u.f[0].n, {k: v.n for k, v in u.d[0].items()})
            if h == "fnv" and not res.violations:
                validate(p, res)


def tasks(tier):
    t = [(ddrun, (o, s, tuple(ns))) for (o, s), ns in dd.by_tu(dd.units(tier))]
    ms = [0, 1, 4, 8, 5, 9, 12, 13, 0x82, 0x8081] + ([0x1f, 0x3f, 0x800081] if tier == "thorough" else [])
    return t + [(sparse, (h, (m,))) for m in ms for h in ("fnv", "collide", "sum", "rev")]


def describe(tier):
    return {"bounds": "orders 1 and 2, fixed sizes 0..16 and run-time sizes; sparse scalars with up to %d names (one empty, some prefixes of "
                      "others), 4 hash functions; every double value; stream precision 0..17, width 0..40, fixed/scientific/showpos/"
                      "showpoint/uppercase flags symbolic" % (6 if tier == "thorough" else 3),
            "assumptions": main.FP_ASSUMPTIONS + ["std::ostream's inserters and std::stringstream behave as the standard says: what is "
                                                  "inserted appears once, formatted under the state at that moment, width resets to 0",
                                                  "char streams only"]}
