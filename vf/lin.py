"""Relaxation of nonlinear integer constraints to linear ones (monomials become unknowns; parity of x*x - x and the pairwise
products of the nonnegative linear facts are added).  Every added fact is a consequence of the integer meaning of the original
constraints, so 'unsat' of the relaxation is 'unsat' of the constraints; anything else says nothing."""
import itertools

import z3


class Giveup(Exception):
    pass


class Lin:
    def __init__(self):
        self.mono = {}
        self.extra = []
        self.atoms = {}
        self.names = {}
        self.nonneg = []
        self.memo = {}
        self.n = 0

    def atom(self, e):
        k = e.get_id()
        if k not in self.atoms:
            self.atoms[k] = e
        return {(k,): 1}

    def fresh(self, tag):
        self.n += 1
        v = z3.Int("%s!!%d" % (tag, self.n))
        return v

    def poly(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.memo[k] = self.poly1(e)
        return self.memo[k]

    def poly1(self, e):
        if z3.is_int_value(e):
            return {(): e.as_long()} if e.as_long() else {}
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = add(r, self.poly(c))
            return r
        if d == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = add(r, self.poly(c), -1)
            return r
        if d == z3.Z3_OP_UMINUS:
            return add({}, self.poly(ch[0]), -1)
        if d == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in ch:
                r = mul(r, self.poly(c))
            return r
        if d == z3.Z3_OP_UNINTERPRETED and not ch:
            return self.atom(e)
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            c = ch[1].as_long()
            a = self.poly(ch[0])
            q = self.fresh("dq")
            qp = self.atom(q)
            self.keep = getattr(self, "keep", []) + [q]
            self.ge(add(a, qp, -c))
            self.ge(add({(): c - 1}, add(a, qp, -c), -1))
            return qp if d == z3.Z3_OP_IDIV else add(a, qp, -c)
        if d == z3.Z3_OP_ITE:
            v = self.fresh("it")
            self.keep = getattr(self, "keep", []) + [v]
            p = self.atom(v)
            c = self.form(ch[0])
            self.extra.append(z3.Implies(c, self.rel(add(p, self.poly(ch[1]), -1), "==")))
            self.extra.append(z3.Implies(z3.Not(c), self.rel(add(p, self.poly(ch[2]), -1), "==")))
            return p
        raise Giveup(str(e.decl()))

    def ge(self, p):
        self.extra.append(self.rel(p, ">="))

    def lin(self, p):
        t = [z3.IntVal(p.get((), 0))]
        for m, c in p.items():
            if not m:
                continue
            if len(m) == 1:
                v = self.atoms[m[0]]
            else:
                if m not in self.mono:
                    self.mono[m] = z3.Int("m!!%d" % len(self.mono))
                v = self.mono[m]
            t.append(c * v)
        return z3.Sum(t)

    def rel(self, p, op):
        l = self.lin(p)
        return {">=": l >= 0, "==": l == 0, ">": l >= 1, "!=": l != 0}[op]

    def form(self, f):
        d = f.decl().kind()
        ch = f.children()
        if d in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return f
        if d == z3.Z3_OP_AND:
            return z3.And([self.form(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or([self.form(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bool(ch[0]):
            e = self.form(ch[0]) == self.form(ch[1])
            return e if d == z3.Z3_OP_EQ else z3.Not(e)
        s, op = self.side(f)
        return self.rel(s, op)

    def side(self, f):
        d = f.decl().kind()
        a, b = [self.poly(c) for c in f.children()]
        if d == z3.Z3_OP_GE:
            return add(a, b, -1), ">="
        if d == z3.Z3_OP_LE:
            return add(b, a, -1), ">="
        if d == z3.Z3_OP_GT:
            return add(a, b, -1), ">"
        if d == z3.Z3_OP_LT:
            return add(b, a, -1), ">"
        if d == z3.Z3_OP_EQ:
            return add(a, b, -1), "=="
        if d == z3.Z3_OP_DISTINCT:
            return add(a, b, -1), "!="
        raise Giveup(str(f.decl()))

    def facts(self, f):
        """Polynomials known to be nonnegative because f is asserted."""
        d = f.decl().kind()
        if d == z3.Z3_OP_AND:
            return [p for c in f.children() for p in self.facts(c)]
        neg = False
        if d == z3.Z3_OP_NOT:
            f, neg = f.children()[0], True
            d = f.decl().kind()
        if d in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT):
            p, op = self.side(f)
            if op == ">":
                p = add(p, {(): -1})
            if neg:
                p = add({(): -1}, p, -1)
            return [p]
        return []


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def unsat(assertions, timeout=10000, degree=2):
    """True when the linear relaxation of the assertions (integer variables only) is unsatisfiable."""
    L = Lin()
    try:
        fs = [L.form(a) for a in assertions]
        facts = []
        for a in assertions:
            for p in L.facts(a):
                if max((len(m) for m in p), default=0) == 1 and p not in facts:
                    facts.append(p)
    except Giveup:
        return False
    if len(facts) > 14:
        facts = facts[:14]
    prods = []
    for x, y in itertools.combinations_with_replacement(facts, 2):
        prods.append(L.rel(mul(x, y), ">="))
    if degree >= 3 and len(facts) <= 8:
        for x, y, w in itertools.combinations_with_replacement(facts, 3):
            prods.append(L.rel(mul(mul(x, y), w), ">="))
    par = []
    for k, e in list(L.atoms.items()):
        if (k, k) in L.mono:
            t = z3.Int("par!!%d" % k)
            par.append(L.lin({(k, k): 1, (k,): -1}) == 2 * t)
            par.append(L.lin({(k, k): 1}) >= 0)
    for x, y in itertools.combinations([k for k in L.atoms if (k, k) in L.mono], 2):
        par.append(z3.Implies(L.atoms[x] == L.atoms[y], L.mono[x, x] == L.mono[y, y]))
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*fs, *L.extra, *prods, *par)
    return s.check() == z3.unsat
