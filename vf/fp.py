"""Terms read as IEEE 754 doubles (z3 floating point), libm calls as uninterpreted functions: bit-exact properties."""
import itertools
import math
import random
import time

import z3

from . import real, terms
from .terms import Node, constval

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()
_ufs = {}


def uf(name, n, sort):
    k = (name, n, sort)
    if k not in _ufs:
        s = F64 if sort == "d" else F32
        _ufs[k] = z3.Function("%s_%d_%s" % (name, n, sort), *([s] * (n + 1)))
    return _ufs[k]


class NotFp(Exception):
    pass


class Ctx:
    def __init__(self):
        self.memo = {}
        self.vars = {}

    def val(self, node):
        memo = self.memo
        stack = [node]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            todo = [a for a in n.args if isinstance(a, Node) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[n.id] = self.val1(n)
        return memo[node.id]

    def arg(self, a, w):
        return self.memo[a.id] if isinstance(a, Node) else z3.BitVecVal(a, w)

    def val1(self, n):
        op, m = n.op, self.memo
        sort = {"d": F64, "s": F32}.get(n.sort)
        if op == "const":
            return z3.fpBVToFP(z3.BitVecVal(n.args[0], 64 if n.sort == "d" else 32), sort) if sort is not None else self.bad(n)
        if op == "var":
            if sort is not None:
                v = z3.FP(n.args[0], sort)
            elif n.sort == 1:
                v = z3.BitVec(n.args[0], 1)
            elif isinstance(n.sort, int):
                v = z3.BitVec(n.args[0], n.sort)
            else:
                self.bad(n)
            self.vars[n.args[0]] = v
            return v
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = m[n.args[0].id]
            if op == "fneg":
                return self.neg(a)
            b = m[n.args[1].id]
            if op == "fsub":
                b = self.neg(b)
            if op in ("fadd", "fsub"):
                if b.get_id() < a.get_id():
                    a, b = b, a
                return z3.fpAdd(RNE, a, b)
            sa, a = self.sign(a)
            sb, b = self.sign(b)
            if op == "fmul":
                if b.get_id() < a.get_id():
                    a, b = b, a
                r = z3.fpMul(RNE, a, b)
            else:
                r = z3.fpDiv(RNE, a, b)
            return self.neg(r) if sa != sb else r
        if op == "call":
            a = [m[x.id] for x in n.args[1:]]
            f = n.args[0]
            if f == "fabs":
                return z3.fpAbs(a[0])
            if f in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
                mode = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}.get(f, RNE)
                return z3.fpRoundToIntegral(mode, a[0])
            if f == "pow":
                one = z3.FPVal(1, a[0].sort())      # exact in every libm
                if n.args[2].op == "const":
                    e = terms.constval(n.args[2])
                    return one if e == 0 else a[0] if e == 1 else uf(f, 2, n.sort)(*a)
                return z3.If(z3.fpIsZero(a[1]), one, z3.If(a[1] == one, a[0], uf(f, 2, n.sort)(*a)))
            if f == "fma":
                return z3.fpFMA(RNE, *a)
            return uf(f, len(a), n.sort)(*a)
        if op == "fpext":
            return z3.fpFPToFP(RNE, m[n.args[0].id], sort)
        if op == "fptrunc":
            return z3.fpFPToFP(RNE, m[n.args[0].id], sort)
        if op == "fcmp":
            a, b = m[n.args[1].id], m[n.args[2].id]
            p = n.args[0]
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            if p == "uno":
                r = nan
            elif p == "ord":
                r = z3.Not(nan)
            else:
                base = {"eq": z3.fpEQ(a, b), "ne": z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b))), "lt": z3.fpLT(a, b),
                        "gt": z3.fpGT(a, b), "le": z3.fpLEQ(a, b), "ge": z3.fpGEQ(a, b)}[p[1:]]
                r = base if p[0] == "o" else z3.Or(nan, base)
            return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == "frombits":
            return z3.fpBVToFP(m[n.args[0].id], sort)
        if op == "tobits":
            return z3.fpToIEEEBV(m[n.args[0].id])
        if op in ("sitofp", "uitofp"):
            a = m[n.args[0].id]
            return z3.fpSignedToFP(RNE, a, sort) if op == "sitofp" else z3.fpUnsignedToFP(RNE, a, sort)
        if op in ("fptosi", "fptoui"):
            a = m[n.args[0].id]
            s = z3.BitVecSort(n.sort)
            return z3.fpToSBV(z3.RTZ(), a, s) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), a, s)
        if isinstance(n.sort, int):
            w = n.sort
            if op == "icmp":
                w2 = next(x.sort for x in n.args[1:] if isinstance(x, Node))
                a, b = self.arg(n.args[1], w2), self.arg(n.args[2], w2)
                r = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sgt": lambda: a > b,
                     "sle": lambda: a <= b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ugt": lambda: z3.UGT(a, b),
                     "ule": lambda: z3.ULE(a, b), "uge": lambda: z3.UGE(a, b)}[n.args[0]]()
                return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if op in ("zext", "sext", "trunc"):
                a = m[n.args[0].id]
                w0 = a.size()
                return z3.ZeroExt(w - w0, a) if op == "zext" else z3.SignExt(w - w0, a) if op == "sext" else \
                    z3.Extract(w - 1, 0, a)
            a, b = self.arg(n.args[0], w), self.arg(n.args[1], w)
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                    "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
                    "ashr": lambda: a >> b, "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b),
                    "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b)}[op]()
        self.bad(n)

    def bad(self, n):
        raise NotFp("operation " + n.op)

    def neg(self, a):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_FPA_NEG:
            return a.arg(0)
        return z3.fpNeg(a)

    def sign(self, a):
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_FPA_NEG:
            return True, a.arg(0)
        return False, a

    def cond(self, c):
        return self.val(c) == z3.BitVecVal(1, 1)


def model_val(model, v):
    x = model.eval(v, model_completion=True)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_fp_value(x):
        if x.isNaN():
            return math.nan
        if x.isInf():
            return -math.inf if x.isNegative() else math.inf
        if x.isZero():
            return -0.0 if x.isNegative() else 0.0
        b = z3.simplify(z3.fpToIEEEBV(x)).as_long()
        return terms.bits2d(b) if x.sort() == F64 else terms.bits2s(b)
    return 0


SPECIALS = [1.0, -1.5, 0.75, 0.0, -0.0, math.nan, math.inf, -math.inf, 5e-324, -5e-324, 1e-200, 1e200, -1e200, 1e-310, 1.7e308,
            0.1, 3.0, -0.3, 1e-8, 1e8, 2.0, 10.0, 1 + 2 ** -52, 700.0, -700.0, 0.5, 1e16]


def conds_ok(conds, env):
    memo = {}
    try:
        return all(bool(terms.evaluate(c, env, memo)) == v for c, v in conds)
    except terms.EvalError:
        return False


def points(names, model_env, rnd, sorts):
    if model_env:
        yield model_env
    fl = [n for n in names if sorts[n] == "d"]
    base = dict(model_env or {n: 0.75 for n in names})
    for a in SPECIALS:
        yield {**base, **{n: a for n in fl}}
    if len(fl) <= 3:
        for t in itertools.product(SPECIALS, repeat=len(fl)):
            yield {**base, **dict(zip(fl, t))}
    for _ in range(300):
        yield {**base, **{n: rnd.choice(SPECIALS) if rnd.random() < .4 else rnd.uniform(-3, 3) for n in fl}}


def same(a, b):
    return (a != a and b != b) or terms.d2bits(a) == terms.d2bits(b)


def decide_path(p, path, res, names):
    from . import core
    sorts = {n: v.sort for n, v in terms.variables(p.terms()).items()}
    names = sorted(sorts)
    conds = [(d, True) for d in p.domain] + list(path.conds)
    rnd = random.Random(core.SEED)

    def ask(extra_nodes, build, timeout=20000):
        """query conds and build(ctx); build returns a z3 bool that should be unsatisfiable"""
        ctx = Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
            q = build(ctx)
        except NotFp as e:
            return "unknown", str(e), None
        real.STATS.fp_queries += 1
        r, m = real.check(zc + [q], timeout)
        env = None
        if r == "sat":
            env = {n: (model_val(m, ctx.vars[n]) if n in ctx.vars else 0.75) for n in names}
        return r, "", env

    ok_outcome = path.outcome == p.want and not (p.want == "throw" and p.throw_type and path.detail != p.throw_type)
    if conds:
        key = ("fpreach", real.canon([terms.mk("c", (c, v), 1) for c, v in conds])[0])
        r = core._cache.get(key)
        if r is None or not ok_outcome:
            r, why, env = ask([], lambda c: z3.BoolVal(True))
            core._cache[key] = r
        if r == "unsat":
            return False
    else:
        env = {n: 0.75 for n in names}
    if not ok_outcome:
        res.asserted += 1
        what = "%s %s instead of %s" % (path.outcome, path.detail, p.want)
        n = 0
        for e in points(names, env, rnd, sorts):
            if not conds_ok(conds, e):
                continue
            n += 1
            if path.outcome == "error":
                if core.memory_violation(p, path, e, res, what):
                    return True
            else:
                nat = core.run_native(p, e)
                if nat.outcome != p.want or (p.want == "throw" and p.throw_type and p.throw_type[4:] not in nat.what):
                    core.violation(res, p, e, -1, p.want, nat.outcome + " " + nat.what, what)
                    return True
            if n >= 2:
                break
        res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, what))
        return True
    if p.leaks and path.leaks:
        res.asserted += 1
        e = next((e for e in points(names, env if conds else None, rnd, sorts) if conds_ok(conds, e)), None)
        if e is None or not core.memory_violation(p, path, e, res, "leak of %d heap objects" % len(path.leaks)):
            res.inconclusive.append(p.name + ": leak (not reproduced)")
        return True
    if path.out is None:
        return True
    data, idata = path.out
    facts = [("int", k, v, core.out_int(idata, k)) for k, v in p.iexpect.items()] + \
            [("out", k, v, core.out_node(data, k)) for k, v in p.expect.items()]
    bad = 0
    for kind, k, exp, got in facts:
        res.asserted += 1
        if isinstance(got, Node) and "undef" in terms.variables([got]):
            e = next((e for e in points(names, None, rnd, sorts) if conds_ok(conds, e)), None)
            if e and core.memory_violation(p, path, e, res, "output %s %d is uninitialised" % (kind, k)):
                return True
            res.inconclusive.append("%s: output %d uninitialised (not reproduced)" % (p.name, k))
            continue
        if isinstance(got, Node) or isinstance(exp, Node):
            if isinstance(got, str):
                r, why, env = "sat", got, None
            else:
                gotn = got if isinstance(got, Node) else None
                key = None
                if gotn is not None and isinstance(exp, Node):
                    key = ("fp",) + (real.canon([gotn, exp] + [terms.mk("c", (c, v), 1) for c, v in conds])[0],)
                    if core._cache.get(key) == "unsat":
                        real.STATS.cached += 1
                        res.discharged += 1
                        res.identical += int(gotn is exp)
                        continue

                def q(ctx):
                    w = 64
                    a = ctx.val(got) if isinstance(got, Node) else z3.BitVecVal(got, w)
                    b = ctx.val(exp) if isinstance(exp, Node) else z3.BitVecVal(exp, w)
                    if z3.is_bv(a) and a.size() != b.size():
                        b = z3.ZeroExt(a.size() - b.size(), b) if a.size() > b.size() else b
                        a = z3.ZeroExt(b.size() - a.size(), a) if b.size() > a.size() else a
                    return z3.Not(a == b)
                r, why, env = ask([got, exp], q)
                if r == "unsat":
                    if key is not None:
                        core._cache[key] = "unsat"
                    res.discharged += 1
                    res.identical += int(got is exp)
                    if len(res.samples) < 3:
                        res.samples.append({"problem": p.name, "output": k, "implementation": terms.show(got, 5)[:300],
                                            "oracle": terms.show(exp, 5)[:300], "verdict": "unsat"})
                    continue
        elif got == exp:
            res.discharged += 1
            continue
        else:
            r, why, env = "sat", "", None
        # concretise and replay
        n = 0
        for e in points(names, env, rnd, sorts):
            if not conds_ok(conds, e):
                continue
            memo = {}
            try:
                w = terms.evaluate(exp, e, memo) if isinstance(exp, Node) else exp
                if isinstance(got, Node):
                    g = terms.evaluate(got, e, memo)
                    if (same(g, w) if kind == "out" else g == w):
                        continue
            except terms.EvalError:
                pass
            n += 1
            nat = core.run_native(p, e)
            v = (nat.out if kind == "out" else nat.oo).get(k)
            if nat.outcome != p.want or v is None or not (same(v, w) if kind == "out" else v == w):
                core.violation(res, p, e, ("int %d" % k) if kind == "int" else k, w, v if nat.outcome == p.want else nat.outcome + " "
                               + nat.what, "result is not the expected one bit for bit")
                return True
            if n >= 8:
                break
        bad += 1
        res.inconclusive.append("%s: output %s %d: %s %s" % (p.name, kind, k, r, "(not reproduced natively)" if r == "sat" else why))
        if bad >= 4:
            break
    return True
