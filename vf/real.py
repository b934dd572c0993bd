"""Terms read as exact real arithmetic, decided by z3 (nonlinear real arithmetic over atoms for libm calls).

A term becomes  coef * prod factor_i^{k_i}  (integer exponents, possibly negative); a sum of two such values pulls out
the common powers and introduces the remaining sum as one new factor (an unexpanded z3 expression).  Every division,
root, logarithm ... also yields a definedness obligation.  libm calls become real-valued atoms with axioms.
"""
import hashlib
import math
import time
from fractions import Fraction

import z3

from . import terms
from .terms import Node, constval

RV = z3.RealVal


def qv(f):
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else RV(f.numerator)


def _wellknown():
    t = {}
    for name, v in (("ln2", math.log(2)), ("ln10", math.log(10)), ("log2e", 1 / math.log(2)), ("pi", math.pi)):
        t[v] = name
    t[1.4426950408889634] = "log2e"
    t[0.4342944819032518] = "log10e"
    t[0.6931471805599453] = "ln2"
    t[2.302585092994046] = "ln10"
    t[math.pi / 2] = "pi2"
    return t


WELLKNOWN = _wellknown()
WELLKNOWN32 = {terms.f32(k): v for k, v in WELLKNOWN.items()}
SINGLE = False      # narrowing to single precision is rounding, and read as exact, too (checks of numbers over float)


def wellknown(n, v):
    """The constant a literal node of value v stands for, or None."""
    w = WELLKNOWN.get(abs(v)) if n.sort != "s" else None
    return w or (WELLKNOWN32.get(abs(v)) if n.sort == "s" or SINGLE else None)


def const_fraction(v, sort="d"):
    """The rational a double literal stands for: a short fraction it is the nearest double of, else its exact value."""
    ex = Fraction(v)
    if ex.denominator <= 4096:
        return ex
    if sort == "s" or SINGLE and terms.f32(v) == v:
        s = ex.limit_denominator(100)
        return s if abs(s.numerator) < 1000 and terms.f32(float(s)) == v else ex
    s = ex.limit_denominator(1000)
    if s.denominator <= 1000 and abs(s.numerator) < 100000 and float(s) == v:
        return s
    for k in (10 ** 3, 10 ** 6, 10 ** 9):
        r = Fraction(round(v * k), k) if abs(v) < 1e12 else None
        if r is not None and float(r) == v and r != 0:
            return r
    return ex


class NotReal(Exception):
    """The term has no reading in real arithmetic (NaN, infinities, bit tricks)."""


class Val:
    """coef * prod(factor ** exponent); factors are keyed by z3 ast id."""
    __slots__ = ("c", "f")

    def __init__(self, c, f=None):
        self.c = c
        self.f = f or {}


def vmul(a, b):
    if a.c == 0 or b.c == 0:
        return Val(Fraction(0))
    f = dict(a.f)
    for k, (e, n) in b.f.items():
        m = f.get(k)
        if m is None:
            f[k] = (e, n)
        elif m[1] + n == 0:
            del f[k]
        else:
            f[k] = (e, m[1] + n)
    return Val(a.c * b.c, f)


def vpow(a, k):
    if k == 0:
        return Val(Fraction(1))
    if a.c == 0:
        return Val(Fraction(0)) if k > 0 else Val(Fraction(0))
    return Val(a.c ** k, {i: (e, n * k) for i, (e, n) in a.f.items()})


def zprod(c, fs):
    l = []
    for e, n in fs:
        l.extend([e] * n)
    if not l:
        return qv(c)
    r = l[0]
    for e in l[1:]:
        r = r * e
    return r if c == 1 else qv(c) * r


class Ctx:
    """One translation context: variables, atoms, axioms."""

    def __init__(self):
        self.memo = {}
        self.atoms = {}       # key -> Val
        self.axioms = []      # z3 bool
        self.kinds = {}       # kind -> [(arg Val, Val)]
        self.oblig = {}       # id(bool ast) -> (z3 bool that must hold, description)
        self.keep = []
        self.vars = {}        # name -> z3 var
        self.nodeobl = {}     # node id -> list of obligation keys introduced there
        self.boolmemo = {}
        self.ints = {}
        self.opaque = 0

    # -- values
    def atom(self, name):
        v = z3.Real(name)
        return Val(Fraction(1), {v.get_id(): (v, 1)}), v

    def z(self, a):
        """A polynomial z3 expression for a Val without negative exponents; with them as division-free pair."""
        n, d = self.numden(a)
        if d is None:
            return n
        return n / d

    def numden(self, a):
        if a.c == 0:
            return RV(0), None
        num = [(e, n) for e, n in a.f.values() if n > 0]
        den = [(e, -n) for e, n in a.f.values() if n < 0]
        return zprod(a.c, num), (zprod(Fraction(1), den) if den else None)

    def vadd(self, a, b):
        if a.c == 0:
            return b
        if b.c == 0:
            return a
        if a.f.keys() == b.f.keys() and all(a.f[k][1] == b.f[k][1] for k in a.f):
            c = a.c + b.c
            return Val(c, a.f) if c != 0 else Val(Fraction(0))
        common = {}
        ra, rb = {}, {}
        for k in set(a.f) | set(b.f):
            na = a.f[k][1] if k in a.f else 0
            nb = b.f[k][1] if k in b.f else 0
            e = a.f[k][0] if k in a.f else b.f[k][0]
            m = min(na, nb)
            if m:
                common[k] = (e, m)
            if na - m:
                ra[k] = (e, na - m)
            if nb - m:
                rb[k] = (e, nb - m)
        s = zprod(a.c, ra.values()) + zprod(b.c, rb.values())
        # normalise sums z3 can see through, so that equal sums become one factor
        s = z3.simplify(s, som=False, arith_lhs=False)
        if z3.is_rational_value(s):
            q = Fraction(s.numerator_as_long(), s.denominator_as_long())
            return Val(q, common) if q != 0 else Val(Fraction(0))
        self.keep.append(s)
        return vmul(Val(Fraction(1), common), Val(Fraction(1), {s.get_id(): (s, 1)}))

    def neg(self, a):
        return Val(-a.c, a.f)

    def ax(self, b):
        self.axioms.append(b)

    def need(self, b, what, node):
        b = z3.simplify(b)
        if z3.is_true(b):
            return
        k = b.get_id()
        if k not in self.oblig:
            self.oblig[k] = (b, what)
            self.keep.append(b)
        self.nodeobl.setdefault(node.id, []).append(k)

    def rel0(self, a, op):
        """z3 bool: a op 0, for op in '>', '>=', '!=', '==' (denominators are taken as nonzero)."""
        if a.c == 0:
            return z3.BoolVal(op in (">=", "==", "<="))
        if op in ("!=", "=="):
            l = [e == 0 for e, n in a.f.values() if n > 0]
            z = z3.Or(l) if len(l) > 1 else (l[0] if l else z3.BoolVal(False))
            return z if op == "==" else z3.Not(z)
        # sign of a = sign of c * prod factor^|n|
        p = zprod(a.c, [(e, abs(n) if abs(n) < 3 else (1 if n % 2 else 2)) for e, n in a.f.values()])
        return {">": p > 0, ">=": p >= 0, "<": p < 0, "<=": p <= 0}[op]

    def key(self, a):
        n, d = self.numden(a)
        n = z3.simplify(n, som=True)
        self.keep.append(n)
        if d is None:
            return (n.get_id(),)
        d = z3.simplify(d, som=True)
        self.keep.append(d)
        return (n.get_id(), d.get_id())

    # -- translation
    def val(self, node):
        stack = [node]
        memo = self.memo
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            todo = [a for a in n.args if isinstance(a, Node) and isinstance(a.sort, str) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[n.id] = self.val1(n)
        return memo[node.id]

    def named(self, name):
        k = ("const", name)
        if k not in self.atoms:
            if name == "log2e":
                self.atoms[k] = vpow(self.named("ln2"), -1)
            elif name == "log10e":
                self.atoms[k] = vpow(self.named("ln10"), -1)
            elif name == "pi2":
                self.atoms[k] = vmul(Val(Fraction(1, 2)), self.named("pi"))
            else:
                v, x = self.atom("const!" + name)
                lo = {"ln2": (693147, 10 ** 6), "ln10": (2302585, 10 ** 6), "pi": (3141592, 10 ** 6)}[name]
                self.ax(x > z3.Q(*lo))
                self.ax(x < z3.Q(lo[0] + 1, lo[1]))
                self.atoms[k] = v
        return self.atoms[k]

    def val1(self, n):
        op = n.op
        m = self.memo
        if op == "const":
            v = constval(n)
            if v != v or math.isinf(v):
                raise NotReal("constant %r" % v)
            w = wellknown(n, v)
            if w:
                r = self.named(w)
                return r if v > 0 else self.neg(r)
            return Val(const_fraction(v, n.sort))
        if op == "var":
            v, x = self.atom(n.args[0])
            self.vars[n.args[0]] = x
            return v
        if op == "undef":
            raise NotReal("uninitialised value")
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = m[n.args[0].id]
            if op == "fneg":
                return self.neg(a)
            b = m[n.args[1].id]
            if op == "fadd":
                return self.vadd(a, b)
            if op == "fsub":
                return self.vadd(a, self.neg(b))
            if op == "fmul":
                return vmul(a, b)
            self.need(self.rel0(b, "!="), "division by zero: " + terms.show(n.args[1], 3), n)
            if b.c == 0:
                raise NotReal("division by the constant zero")
            return vmul(a, vpow(b, -1))
        if op == "fpext":
            return m[n.args[0].id]
        if op == "call":
            return self.call(n.args[0], [m[a.id] for a in n.args[1:]], n)
        if op in ("sitofp", "uitofp"):
            try:
                e = z3.simplify(z3.ToReal(self.int(n.args[0], op == "sitofp")))
            except NotReal:
                return self.opaque_atom(n)
            self.keep.append(e)
            if z3.is_rational_value(e):
                return Val(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            return Val(Fraction(1), {e.get_id(): (e, 1)})
        if op == "ite":
            raise NotReal("ite")
        if op == "fptrunc" and SINGLE:
            return m[n.args[0].id]
        if op == "fptrunc":
            return self.uf("fptrunc!" + n.sort, [m[n.args[0].id]])
        if op == "frem":
            return self.uf("frem", [m[n.args[0].id], m[n.args[1].id]])
        raise NotReal("operation " + op)

    def opaque_atom(self, n):
        v, x = self.atom("opq!%d" % n.id)
        return v

    def uf(self, name, args, axioms=None):
        """Atom for name(args); equal arguments (as polynomials) give the same atom."""
        k = (name,) + tuple(self.key(a) for a in args)
        r = self.atoms.get(k)
        if r is None:
            r, x = self.atom("%s!%d" % (name, len(self.atoms)))
            self.atoms[k] = r
            self.kinds.setdefault(name, []).append((args, r, x))
            if axioms:
                axioms(x)
        return r

    def refine(self, limit=60):
        """Further axioms, for queries that are satisfiable without them: equal arguments give equal results, integer exponents."""
        out = []
        for name, atoms in self.kinds.items():
            for i, (a, v, x) in enumerate(atoms):
                for b, w, y in atoms[:i]:
                    if len(out) < limit:
                        same = [self.rel0(self.vadd(s, self.neg(t)), "==") for s, t in zip(a, b)]
                        if not any(z3.is_false(z3.simplify(c)) for c in same):
                            out.append(z3.Implies(z3.And(*same), x == y))
            if name == "powr":
                for (b, p), v, x in atoms[:8]:
                    B = self.z(b)
                    for k in range(-3, 9):
                        e = z3.RealVal(1)
                        for _ in range(abs(k)):
                            e = e * B
                        c = self.rel0(self.vadd(p, Val(Fraction(-k))), "==")
                        if k < 0:
                            c = z3.And(c, B != 0)
                        out.append(z3.Implies(c, x == e if k >= 0 else x * e == 1))
        return out

    def eq(self, x, a, p=1):
        """axiom x^p == a"""
        n, d = self.numden(a)
        l = x
        for _ in range(p - 1):
            l = l * x
        self.ax(l == n if d is None else l * d == n)

    def constint(self, a):
        if a.c == 0:
            return 0
        if not a.f and a.c.denominator == 1:
            return int(a.c)
        return None

    def call(self, f, a, n):
        x = a[0]
        one = Val(Fraction(1))
        if f == "sqrt":
            self.need(self.rel0(x, ">="), "root of a negative number: " + terms.show(n.args[1], 3), n)
            return self.sqrt(x)
        if f == "cbrt":
            if self.constint(x) in (0, 1, -1, 8, -8):
                return Val(Fraction(round(self.constint(x) ** (1 / 3)) if x.c >= 0 else -round((-self.constint(x)) ** (1 / 3))))
            return self.uf("cbrt", [x], lambda v: self.eq(v, x, 3))
        if f == "pow":
            return self.pow(x, a[1], n)
        if f in ("sin", "cos"):
            return self.trig(x)[f == "cos"]
        if f == "tan":
            s, c = self.trig(x)
            self.need(self.rel0(c, "!="), "tan at a pole", n)
            return vmul(s, vpow(c, -1))
        if f in ("sinh", "cosh"):
            return self.hyp(x)[f == "cosh"]
        if f == "tanh":
            s, c = self.hyp(x)
            return vmul(s, vpow(c, -1))
        if f == "exp":
            return self.exp(x)
        if f == "expm1":
            return self.vadd(self.exp(x), Val(Fraction(-1)))
        if f == "exp2":
            return self.exp(vmul(x, self.named("ln2")))
        if f in ("log", "log2", "log10", "log1p"):
            u = self.vadd(x, one) if f == "log1p" else x
            self.need(self.rel0(u, ">"), "logarithm of a non-positive number: " + terms.show(n.args[1], 3), n)
            l = self.ln(u)
            if f == "log2":
                l = vmul(l, vpow(self.named("ln2"), -1))
            if f == "log10":
                l = vmul(l, vpow(self.named("ln10"), -1))
            return l
        if f in ("asin", "acos"):
            self.need(self.rel0(self.vadd(one, self.neg(vmul(x, x))), ">="), f + " outside [-1, 1]", n)
            s = self.uf("asin", [x])
            if f == "asin":
                return s
            return self.vadd(self.named("pi2"), self.neg(s))
        if f == "acosh":
            self.need(self.rel0(self.vadd(x, self.neg(one)), ">="), "acosh below 1", n)
            return self.uf("acosh", [x])
        if f == "atanh":
            self.need(self.rel0(self.vadd(one, self.neg(vmul(x, x))), ">"), "atanh outside (-1, 1)", n)
            return self.uf("atanh", [x])
        if f in ("hypot", "hypot3"):
            s = vmul(x, x)
            for y in a[1:]:
                s = self.vadd(s, vmul(y, y))
            return self.sqrt(s)
        if f == "fabs":
            return self.fabs(x)
        if f in ("fmin", "fmax"):
            def mm(v):
                X, Y = self.z(a[0]), self.z(a[1])
                self.ax(z3.Or(v == X, v == Y))
                self.ax(z3.And(v <= X, v <= Y) if f == "fmin" else z3.And(v >= X, v >= Y))
            return self.uf(f, a, mm)
        if f == "fma":
            return self.vadd(vmul(a[0], a[1]), a[2])
        if f == "atan2":
            self.need(z3.Or(self.rel0(a[0], "!="), self.rel0(a[1], "!=")), "atan2(0, 0)", n)
            return self.uf("atan2", a)
        if f in ("floor", "ceil", "trunc", "round"):
            e = z3.simplify(z3.ToReal(self.round_to(f, x)))
            self.keep.append(e)
            if z3.is_rational_value(e):
                return Val(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            return Val(Fraction(1), {e.get_id(): (e, 1)})
        if f == "copysign":
            v = self.fabs(x)
            w = self.fabs(a[1])
            if a[1].c == 0:
                raise NotReal("copysign from zero")
            return vmul(vmul(v, a[1]), vpow(w, -1))
        return self.uf(f, a)

    def floor(self, x):
        """z3 integer: the floor of x"""
        if not x.f:
            return z3.IntVal(math.floor(x.c))
        k = ("floor",) + self.key(x)
        t = self.ints.get(k)
        if t is None:
            t = self.ints[k] = z3.Int("floor!%d" % len(self.ints))
            X, d = self.numden(x)
            if d is not None:
                X = X / d
            self.ax(z3.ToReal(t) <= X)
            self.ax(X < z3.ToReal(t) + 1)
        return t

    def round_to(self, f, x):
        """z3 integer: floor, ceil, trunc or round of x"""
        if f == "ceil":
            return -self.floor(self.neg(x))
        if f == "floor":
            return self.floor(x)
        y = self.vadd(x, Val(Fraction(1, 2))) if f == "round" else x
        z = self.vadd(self.neg(x), Val(Fraction(1, 2))) if f == "round" else self.neg(x)
        return z3.If(self.rel0(x, ">="), self.floor(y), -self.floor(z))

    def int(self, n, signed=True):
        """z3 integer for an integer term, taken as exact (no wrap-around)."""
        if isinstance(n, int):
            return z3.IntVal(terms.sgn(n, 64) if signed else n)
        op, w = n.op, n.sort
        if op == "var":
            t = self.ints.get(n.args[0])
            if t is None:
                t = self.ints[n.args[0]] = z3.Int(n.args[0])
                self.ax(t >= (-(1 << w - 1) if signed else 0))
                self.ax(t < (1 << w - 1))
            return t
        if op in ("fptosi", "fptoui"):
            return self.round_to("trunc", self.val(n.args[0]))
        if op == "call" and n.args[0] in ("lround", "llround"):
            return self.round_to("round", self.val(n.args[1]))
        if op == "ite":
            return z3.If(self.cond(n.args[0]), *(self.int(x, signed) for x in n.args[1:3]))
        if op in ("add", "sub", "mul"):
            a, b = ((z3.IntVal(terms.sgn(x, w)) if isinstance(x, int) else self.int(x, signed)) for x in n.args[:2])
            return a + b if op == "add" else a - b if op == "sub" else a * b
        if op == "and" and n.args[1] == 1:
            return self.int(n.args[0], signed) % 2
        if op == "sext" or op == "zext" and isinstance(n.args[0], Node):
            x = n.args[0]
            if x.sort == 1:
                return z3.If(self.cond(x), z3.IntVal(-1 if op == "sext" else 1), z3.IntVal(0))
            return self.int(x, op == "sext")
        raise NotReal("integer operation " + op)

    def fabs(self, x):
        if not x.f:
            return Val(abs(x.c))

        def axs(v):
            X, d = self.numden(x)
            if d is not None:
                X = X / d
            self.ax(v >= 0)
            self.ax(z3.Or(v == X, v == -X))
        return self.uf("fabs", [x], axs)

    def sqrt(self, x):
        if x.c == 0:
            return x
        r = math.isqrt(x.c.numerator * x.c.denominator) if x.c > 0 else -1
        if not x.f and x.c > 0 and r * r == x.c.numerator * x.c.denominator:
            return Val(Fraction(r, x.c.denominator))

        def axs(v):
            self.ax(v >= 0)
            self.eq(v, x, 2)
        return self.uf("sqrt", [x], axs)

    def trig(self, x):
        if x.c == 0:
            return Val(Fraction(0)), Val(Fraction(1))
        if self.flip(x):
            s, c = self.trig(self.neg(x))
            return self.neg(s), c
        c = self.uf("cos", [x])
        k = len(self.kinds.get("sin", []))
        s = self.uf("sin", [x])
        if len(self.kinds["sin"]) > k:
            sz, cz = self.z(s), self.z(c)
            self.ax(sz * sz + cz * cz == 1)
        return s, c

    def hyp(self, x):
        if x.c == 0:
            return Val(Fraction(0)), Val(Fraction(1))
        if self.flip(x):
            s, c = self.hyp(self.neg(x))
            return self.neg(s), c
        c = self.uf("cosh", [x])
        k = len(self.kinds.get("sinh", []))
        s = self.uf("sinh", [x])
        if len(self.kinds["sinh"]) > k:
            sz, cz = self.z(s), self.z(c)
            self.ax(cz * cz == sz * sz + 1)
            self.ax(cz >= 1)
            self.ax(self.rel0(x, ">") == (sz > 0))
            self.ax(self.rel0(x, "==") == (sz == 0))
        return s, c

    def flip(self, x):
        """A sign convention so that f(-x) and f(x) share one atom."""
        return x.c < 0

    def exp(self, x):
        if x.c == 0:
            return Val(Fraction(1))
        if self.flip(x):
            return vpow(self.exp(self.neg(x)), -1)

        def axs(v):
            self.ax(v > 0)
            self.ax(self.rel0(x, ">") == (v > 1))
            self.ax(self.rel0(x, "==") == (v == 1))
        new = ("exp", self.key(x)) not in self.atoms
        e = self.uf("exp", [x], axs)
        if new:
            s, c = self.hyp(x)
            ez = self.z(e)
            self.ax(2 * self.z(c) * ez == ez * ez + 1)
            self.ax(2 * self.z(s) * ez == ez * ez - 1)
        return e

    def ln(self, u):
        if not u.f:
            if u.c == 1:
                return Val(Fraction(0))
            if u.c == 2:
                return self.named("ln2")
            if u.c == 10:
                return self.named("ln10")

        def axs(v):
            self.ax((v == 0) == self.rel0(self.vadd(u, Val(Fraction(-1))), "=="))
            self.ax((v > 0) == self.rel0(self.vadd(u, Val(Fraction(-1))), ">"))
        return self.uf("ln", [u], axs)

    def split_exponent(self, p):
        """p = k + rest with k an integer constant; rest is None when p is that integer, else a Val."""
        if not p.f:
            k = math.floor(p.c)
            return k, (Val(p.c - k) if p.c != k else None)
        if len(p.f) == 1:
            (e, n), = p.f.values()
            if n == 1:
                s = z3.simplify(qv(p.c) * e, som=True)
                k = 0
                if z3.is_add(s):
                    rest = []
                    for t in s.children():
                        if z3.is_rational_value(t) and t.denominator_as_long() == 1:
                            k += t.numerator_as_long()
                        else:
                            rest.append(t)
                    s = rest[0] if len(rest) == 1 else z3.Sum(rest)
                if not k and not z3.is_add(s):
                    return 0, p
                s = z3.simplify(s, som=True)
                self.keep.append(s)
                return k, Val(Fraction(1), {s.get_id(): (s, 1)})
        return 0, p

    def pow(self, x, p, n):
        k, rest = self.split_exponent(p)
        if rest is None:
            if k < 0:
                self.need(self.rel0(x, "!="), "negative power of zero: " + terms.show(n, 3), n)
                if x.c == 0:
                    raise NotReal("negative power of the constant zero")
            if k > 64 or k < -64:
                return self.uf("powi", [x, p])
            return vpow(x, k)
        if not rest.f:
            # constant fractional exponent
            self.need(self.rel0(x, ">=" if k >= 0 else ">"), "fractional power of a negative number: " + terms.show(n, 3), n)
            if rest.c == Fraction(1, 2):
                return vmul(self.sqrt(x), vpow(x, k))

            def axs(v):
                self.ax(v >= 0)
                self.ax(self.rel0(x, "==") == (v == 0))
                if rest.c.denominator <= 4:
                    self.eq(v, vpow(x, rest.c.numerator), rest.c.denominator)
            return vmul(self.uf("powc%s" % rest.c, [x], axs), vpow(x, k))
        if k:
            # pow(x, p + k) = pow(x, p) * x^k holds for x > 0, and for x != 0 when p is an integer; checks using it assume x != 0
            self.need(self.rel0(x, "!="), "symbolic power of zero: " + terms.show(n, 3), n)

        def axs(v):
            self.ax(z3.Implies(self.rel0(x, ">"), v > 0))
            self.ax(z3.Implies(self.rel0(x, "!="), v != 0))
        return vmul(self.uf("powr", [x, rest], axs), vpow(x, k))

    # -- conditions
    def cond(self, c):
        """z3 bool for a width-1 term under the real reading (no NaN, no infinities)."""
        r = self.boolmemo.get(c.id)
        if r is None:
            r = self.boolmemo[c.id] = self.cond1(c)
        return r

    def cond1(self, c):
        if isinstance(c, int):
            return z3.BoolVal(bool(c))
        if c.op == "fcmp":
            pred = c.args[0]
            if pred in ("uno", "ord"):
                self.val(c.args[1])
                self.val(c.args[2])
                return z3.BoolVal(pred == "ord")
            inf = [k for k in (1, 2) if c.args[k].op == "const" and math.isinf(constval(c.args[k]))]
            if inf:
                k = inf[0]
                v = constval(c.args[k]) > 0
                p = pred[1:]
                if k == 1:
                    p = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(p, p)
                return z3.BoolVal({"eq": False, "ne": True, "lt": v, "le": v, "gt": not v, "ge": not v}[p])
            d = self.vadd(self.val(c.args[1]), self.neg(self.val(c.args[2])))
            p = pred[1:]
            if p == "ne":
                return self.rel0(d, "!=")
            return self.rel0(d, {"eq": "==", "gt": ">", "ge": ">=", "lt": "<", "le": "<="}[p])
        if c.op in ("and", "or", "xor"):
            a = [self.cond(x) if isinstance(x, Node) else z3.BoolVal(bool(x)) for x in c.args]
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[c.op](*a)
        if c.op == "icmp":
            pred = c.args[0]
            w = next(x.sort for x in c.args[1:] if isinstance(x, Node))
            a, b = ((z3.IntVal(terms.sgn(x, w)) if isinstance(x, int) else self.int(x)) for x in c.args[1:3])
            if pred[0] == "u":
                a, b = (z3.If(x < 0, x + (1 << w), x) for x in (a, b))
            return {"eq": lambda: a == b, "ne": lambda: a != b, "gt": lambda: a > b, "ge": lambda: a >= b, "lt": lambda: a < b,
                    "le": lambda: a <= b}[pred[-2:]]()
        raise NotReal("condition " + c.op)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cached = 0
        self.time = 0.0
        self.fp_queries = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


STATS = Stats()
DUMP = None     # set to a list to collect SMT-LIB of every query (second-solver cross-check)


def check(assertions, timeout=8000, nl=True):
    """'unsat', ('sat', model) or 'unknown'."""
    t = time.time()
    STATS.queries += 1
    res, model = z3.unknown, None
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*assertions)
    res = s.check()
    if res == z3.unknown and nl:
        s2 = z3.Tactic("qfnra-nlsat").solver()
        s2.set("timeout", timeout)
        s2.add(*assertions)
        try:
            res = s2.check()
            s = s2
        except z3.Z3Exception:
            res = z3.unknown
    if res == z3.sat:
        model = s.model()
    if DUMP is not None and res != z3.unknown:
        DUMP.append((s.to_smt2(), str(res)))
    STATS.time += time.time() - t
    if res == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if res == z3.sat:
        STATS.sat += 1
        return "sat", model
    STATS.unknown += 1
    return "unknown", None


def canon(nodes):
    """Serialisation of terms with variables renamed in order of first occurrence; and that order."""
    ids = {}
    names = {}
    out = []

    def visit(n):
        stack = [(n, 0)]
        while stack:
            n, st = stack.pop()
            if n.id in ids:
                continue
            if st == 0:
                stack.append((n, 1))
                for a in reversed(n.args):
                    if isinstance(a, Node) and a.id not in ids:
                        stack.append((a, 0))
            else:
                ids[n.id] = len(ids)
                if n.op == "var":
                    if n.args[0] not in names:
                        names[n.args[0]] = len(names)
                    out.append("v%d" % names[n.args[0]])
                else:
                    out.append(n.op + "(" + ",".join(str(ids[a.id]) if isinstance(a, Node) else repr(a) for a in n.args) + ")")
    for n in nodes:
        if isinstance(n, Node):
            visit(n)
            out.append("#%d" % ids[n.id])
        else:
            out.append("#" + repr(n))
    return hashlib.sha256(("|".join(out)).encode()).digest(), names


def model_float(model, x):
    v = model.eval(x, model_completion=True)
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return math.copysign(1e300, n)
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0
