"""Terms over 64-bit integers read as mathematical integers (no-overflow is proved, not assumed): index and size arithmetic."""
import math
import time
from fractions import Fraction

import z3

from . import lin, real, terms
from .terms import Node, bvar, mk

LO, HI = -2 ** 63, 2 ** 63 - 1


class I:
    """Expected 64-bit integer terms."""

    def __init__(self, n):
        self.n = n

    def _b(self, o):
        return o.n if isinstance(o, I) else o & (2 ** 64 - 1)

    def __add__(self, o):
        return I(mk("add", (self.n, self._b(o)), 64))

    def __radd__(self, o):
        return I(mk("add", (self.n, self._b(o)), 64))

    def __sub__(self, o):
        return I(mk("sub", (self.n, self._b(o)), 64))

    def __rsub__(self, o):
        return I(mk("sub", (self._b(o), self.n), 64))

    def __mul__(self, o):
        return I(mk("mul", (self.n, self._b(o)), 64))

    __rmul__ = __mul__

    def half(self):
        return I(mk("sdiv", (self.n, 2), 64))

    def cmp(self, p, o):
        return mk("icmp", (p, self.n, self._b(o)), 1)

    def __lt__(self, o):
        return self.cmp("slt", o)

    def __le__(self, o):
        return self.cmp("sle", o)

    def __ge__(self, o):
        return self.cmp("sge", o)

    def __gt__(self, o):
        return self.cmp("sgt", o)


def ivar(name):
    return I(bvar(name, 64))


def check(fs, timeout, ctx=None):
    """real.check after a try at a linear relaxation, with a case split on guessed exact square roots."""
    t = time.time()
    cases = [fs]
    for k, c in (ctx.roots if ctx is not None else []):
        cases = [x + [y] for x in cases for y in (k <= c - 1, k >= c + 1)] + \
                [[z3.substitute(f, (k, c)) for f in x] for x in cases]
    if all(lin.unsat(x) for x in cases):
        real.STATS.queries += len(cases)
        real.STATS.unsat += len(cases)
        real.STATS.time += time.time() - t
        return "unsat", None
    return real.check(fs, timeout, nl=False)


def guess_root(n, names):
    """A linear integer function c with c*c == n at sample points (only a hint for a case split), as {name or '': coefficient}."""
    def at(**env):
        e = {k: env.get(k, 0) for k in names}
        v = terms.evaluate(n, e)
        return math.isqrt(int(v)) if v >= 0 else None
    try:
        z = at(**{k: 16 for k in names})
        co = {}
        for k in names:
            y = at(**{m: 17 if m == k else 16 for m in names})
            co[k] = y - z
        co[""] = z - 16 * sum(co.values())
        return co
    except (TypeError, terms.EvalError, KeyError, ValueError):
        return None


class NotInt(Exception):
    pass


class Ctx:
    """val(node): z3 Int for integer nodes, (s index or None, alpha, beta) for doubles; self.obl: range obligations."""

    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.ax = []
        self.obl = []
        self.roots = []
        self.n = 0

    def val(self, n):
        if not isinstance(n, Node):
            return z3.IntVal(terms.sgn(n, 64))
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self.val1(n)
        return r

    def arg(self, a, w):
        return z3.IntVal(terms.sgn(a, w)) if isinstance(a, int) else self.val(a)

    def tdiv(self, a, c):
        """Truncating division by a positive constant."""
        self.n += 1
        q = z3.Int("q!%d" % self.n)
        self.ax += [z3.Implies(a >= 0, z3.And(c * q <= a, a <= c * q + (c - 1))),
                    z3.Implies(a < 0, z3.And(c * q >= a, a >= c * q - (c - 1)))]
        return q

    def rng(self, r, w=64):
        self.obl.append(z3.And(r >= -2 ** (w - 1), r <= 2 ** (w - 1) - 1))
        return r

    def val1(self, n):
        op = n.op
        if op == "var":
            if not isinstance(n.sort, int):
                raise NotInt("variable of sort %s" % n.sort)
            v = self.vars[n.args[0]] = z3.Int(n.args[0])
            return v
        if n.sort == "d":
            return self.dbl(n)
        w = n.sort
        if not isinstance(w, int):
            raise NotInt(op)
        if w == 1:
            return z3.If(self.cond(n), z3.IntVal(1), z3.IntVal(0))
        if op in ("add", "sub", "mul"):
            a, b = self.arg(n.args[0], w), self.arg(n.args[1], w)
            return self.rng(a + b if op == "add" else a - b if op == "sub" else a * b, w)
        if op == "sdiv" and isinstance(n.args[1], int):
            c = terms.sgn(n.args[1], w)
            a = self.arg(n.args[0], w)
            if c > 0:
                return self.tdiv(a, c)
        if op == "srem" and isinstance(n.args[1], int) and terms.sgn(n.args[1], w) > 0:
            c = terms.sgn(n.args[1], w)
            a = self.arg(n.args[0], w)
            return a - c * self.tdiv(a, c)
        if op in ("udiv", "urem") and isinstance(n.args[1], int) and terms.sgn(n.args[1], w) > 0:
            a = self.arg(n.args[0], w)
            self.obl.append(a >= 0)
            return a / n.args[1] if op == "udiv" else a % n.args[1]
        if op == "shl" and isinstance(n.args[1], int):
            return self.rng(self.arg(n.args[0], w) * 2 ** n.args[1], w)
        if op == "ashr" and isinstance(n.args[1], int):
            return self.arg(n.args[0], w) / 2 ** n.args[1]
        if op == "lshr" and isinstance(n.args[1], int):
            a = self.arg(n.args[0], w)
            self.obl.append(a >= 0)
            return a / 2 ** n.args[1]
        if op == "and" and isinstance(n.args[1], int) and (n.args[1] + 1) & n.args[1] == 0 and n.args[1] < 2 ** (w - 1):
            return self.arg(n.args[0], w) % (n.args[1] + 1)
        if op == "sext":
            return self.arg(n.args[0], n.args[0].sort)
        if op == "zext":
            a = self.arg(n.args[0], n.args[0].sort)
            if n.args[0].sort > 1:
                self.obl.append(a >= 0)
            return a
        if op == "trunc":
            return self.rng(self.arg(n.args[0], n.args[0].sort), w)
        if op in ("fptosi", "fptoui"):
            return self.rng(self.trunc(self.val(n.args[0])), w)
        if op == "ite" or op == "select":
            return z3.If(self.cond(n.args[0]), self.arg(n.args[1], w), self.arg(n.args[2], w))
        raise NotInt(op)

    def dbl(self, n):
        op = n.op
        if op == "const":
            v = terms.constval(n)
            if v != v or abs(v) > 2 ** 52:
                raise NotInt("constant")
            return (None, Fraction(0), Fraction(v), None)
        if op in ("sitofp", "uitofp"):
            a = self.val(n.args[0])
            self.obl.append(z3.And(a >= (0 if op == "uitofp" else -2 ** 52), a <= 2 ** 52))
            return (None, Fraction(0), Fraction(0), a)
        if op == "call" and n.args[0] == "sqrt":
            k0, al, be, a = self.val(n.args[1])
            if al or be or a is None:
                raise NotInt("sqrt argument")
            self.obl.append(z3.And(a >= 0, a <= 2 ** 48))
            self.n += 1
            k = z3.Int("k!%d" % self.n)
            self.ax += [k >= 0, k * k <= a, a < (k + 1) * (k + 1)]
            co = guess_root(n.args[1], sorted(terms.variables([n])))
            if co:
                self.roots.append((k, z3.Sum([z3.IntVal(co[""])] + [v * self.vars[x] for x, v in co.items() if x])))
            return ((k, a), Fraction(1), Fraction(0), None)
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            x = self.val(n.args[0])
            if op == "fneg":
                raise NotInt(op)
            y = self.val(n.args[1])
            if op in ("fadd", "fsub"):
                if y[0] is None and y[3] is None and y[2].denominator == 1:
                    return (x[0], x[1], x[2] + y[2] * (1 if op == "fadd" else -1), x[3])
                if op == "fadd" and x[0] is None and x[3] is None and x[2].denominator == 1:
                    return (y[0], y[1], x[2] + y[2], y[3])
                if x[1] == 0 and y[1] == 0 and x[3] is not None and y[3] is not None:
                    s = 1 if op == "fadd" else -1
                    r = x[3] + s * y[3]
                    self.obl.append(z3.And(r >= -2 ** 51, r <= 2 ** 51))
                    return (None, Fraction(0), x[2] + s * y[2], r)
            if op in ("fmul", "fdiv") and y[0] is None and y[3] is None or op == "fmul" and x[0] is None and x[3] is None:
                if not (y[0] is None and y[3] is None):
                    x, y = y, x
                c = y[2] if op == "fmul" else 1 / y[2]
                if x[0] is None and x[3] is not None and c.denominator == 1:
                    r = x[3] * int(c)
                    self.obl.append(z3.And(r >= -2 ** 51, r <= 2 ** 51))
                    return (None, Fraction(0), x[2] * c, r)
                d = c.denominator if c.numerator == 1 else 0
                if d and d & (d - 1) == 0:
                    if x[0] is not None:
                        return (x[0], x[1] * c, x[2] * c, None)
                    if x[3] is None:
                        return (None, Fraction(0), x[2] * c, None)
                    return ("div", c, x[2] * c, x[3])
        raise NotInt(op)

    def trunc(self, v):
        s, al, be, a = v
        if s == "div":
            u = a + z3.IntVal(int(be / al))
            return self.tdiv(u, int(1 / al))
        if s is None:
            if a is None:
                return z3.IntVal(int(be))
            return a + int(be)
        k, m = s
        c = be / al
        if al <= 0 or al.numerator != 1 or c.denominator != 1:
            raise NotInt("conversion")
        c = int(c)
        u = z3.If(k + c >= 0, k + c, z3.If(k * k == m, k + c, k + 1 + c))
        return self.tdiv(u, al.denominator) if al.denominator > 1 else u

    def cond(self, c):
        if isinstance(c, int):
            return z3.BoolVal(bool(c))
        if c.op == "icmp":
            w = next(x.sort for x in c.args[1:] if isinstance(x, Node))
            a, b = self.arg(c.args[1], w), self.arg(c.args[2], w)
            p = c.args[0]
            if p[0] == "u":
                self.obl.append(z3.And(a >= 0, b >= 0))
                p = "s" + p[1:]
            return {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b}[p]
        if c.op == "and":
            return z3.And(self.cond(c.args[0]), self.cond(c.args[1]))
        if c.op == "or":
            return z3.Or(self.cond(c.args[0]), self.cond(c.args[1]))
        if c.op == "xor" and c.args[1] == 1:
            return z3.Not(self.cond(c.args[0]))
        if c.op == "trunc" and c.sort == 1:
            return self.arg(c.args[0], c.args[0].sort) % 2 == 1
        if c.op in ("zext", "freeze"):
            return self.cond(c.args[0])
        raise NotInt(c.op)


def feasible(p):
    """Branch pruning under the domain: a branch is dropped only when the solver refutes it and shows that reading the
    machine integers as mathematical ones was right (no wrap-around) on the way to it."""
    memo = {}

    def f(conds):
        key = tuple((c.id, v) for c, v in conds)
        if key not in memo:
            memo[key] = f1(conds)
        return memo[key]

    def f1(conds):
        ctx = Ctx()
        try:
            zc = [ctx.cond(d) for d in p.domain]
            for c, v in conds[:-1]:
                zc.append(ctx.cond(c) if v else z3.Not(ctx.cond(c)))
            c, v = conds[-1]
            last = ctx.cond(c) if v else z3.Not(ctx.cond(c))
        except NotInt:
            return True
        if check(zc + ctx.ax + [last], 20000, ctx)[0] != "unsat":
            return True
        return any(check(zc + ctx.ax + [z3.Not(o)], 20000, ctx)[0] != "unsat" for o in ctx.obl)

    return f


def decide_path(p, path, res, names):
    """p.want may be a tuple of accepted outcomes; p.iexpect maps integer outputs to terms (checked on 'ret' paths)."""
    from . import core
    wants = p.want if isinstance(p.want, tuple) else (p.want,)
    conds = [(d, True) for d in p.domain] + list(path.conds)
    names = sorted(terms.variables([x for x in p.iins if isinstance(x, Node)]))
    ctx = Ctx()
    try:
        zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
    except NotInt as e:
        res.inconclusive.append("%s: path condition not encodable: %s" % (p.name, e))
        return True

    def ask(q, extra=()):
        return check(zc + ctx.ax + list(extra) + q, 60000, ctx)

    r, m = ask([])
    if r == "unsat":
        return False
    if r == "unknown":
        res.inconclusive.append("%s: path reachability unknown" % p.name)
        return True

    def envs(q):
        """concrete points, small ones first"""
        for bound in (6, 40, 2000, None):
            ex = [z3.And(v >= -bound, v <= bound) for v in ctx.vars.values()] if bound else []
            r, m = ask(q, ex)
            if r == "sat":
                yield {n: (m.eval(ctx.vars[n], model_completion=True).as_long() & (2 ** 64 - 1) if n in ctx.vars else 0) for n in names}

    def replay(q, why):
        for env in envs(q):
            nat = core.run_native(p, env, native_fn=p.native_fn)
            if nat.outcome not in wants:
                core.violation(res, p, env, -1, p.want, nat.outcome + " " + nat.what, why)
                return True
            if nat.outcome != "ret":
                continue
            for k, v in p.iexpect.items():
                w = terms.sgn(int(terms.evaluate(v.n if isinstance(v, I) else v, env)), 64) if not isinstance(v, int) else v
                if nat.oo.get(k) != w:
                    core.violation(res, p, env, "int %d" % k, w, nat.oo.get(k), why)
                    return True
        return False

    if path.outcome not in wants or (path.outcome == "throw" and p.throw_type and path.detail != p.throw_type):
        res.asserted += 1
        what = "%s %s instead of %s" % (path.outcome, path.detail, p.want)
        if not replay([], what):
            res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, what))
        return True
    # every intermediate integer stays in range
    facts = []
    if path.outcome != "ret":
        res.asserted += 1
        res.discharged += 1
    if path.outcome == "ret":
        data, idata = path.out
        for k, v in p.iexpect.items():
            got = core.out_int(idata, k)
            if isinstance(got, str):
                res.asserted += 1
                if not replay([], "integer output %d %s" % (k, got)):
                    res.inconclusive.append("%s: integer output %d %s" % (p.name, k, got))
                continue
            try:
                facts.append((k, v, got, ctx.val(got) != ctx.val(v.n if isinstance(v, I) else v)))
            except NotInt as e:
                res.asserted += 1
                res.inconclusive.append("%s: integer output %d not encodable: %s" % (p.name, k, e))
    for o in ctx.obl:
        r, m = ask([z3.Not(o)])
        if r != "unsat":
            if not replay([z3.Not(o)], "integer overflow"):
                res.inconclusive.append("%s: possible integer overflow (%s)" % (p.name, r))
            return True
    for k, v, got, q in facts:
        res.asserted += 1
        r, m = ask([q])
        if r == "unsat":
            res.discharged += 1
            if len(res.samples) < 3:
                res.samples.append({"problem": p.name, "output": "int %d" % k, "implementation": terms.show(got, 6)[:300],
                                    "oracle": terms.show(v.n, 6)[:300] if isinstance(v, I) else str(v), "verdict": "unsat"})
        elif r == "sat" and replay([q], "integer output differs from the formula"):
            return True
        else:
            res.inconclusive.append("%s: integer output %d: %s%s" % (p.name, k, r, " (not reproduced)" if r == "sat" else ""))
    return True
