"""Pruning of branches in real mode by linear real arithmetic: products, quotients and function values are unknowns. What the
abstraction refutes is infeasible under the real reading, whatever these values are."""
from fractions import Fraction

import z3

from . import terms

REL = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


class Abstraction:
    def __init__(self):
        self.real, self.bool, self.keep = {}, {}, []

    def num(self, n):
        r = self.real.get(n.id)
        if r is None:
            r = self.real[n.id] = self.num1(n)
            self.keep.append(n)
        return r

    def num1(self, n):
        op = n.op
        if op == "const":
            v = terms.evaluate(n, {})
            if v == v and v not in (float("inf"), float("-inf")):
                f = Fraction(v)
                return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        elif op == "fneg":
            return -self.num(n.args[0])
        elif op in ("fadd", "fsub"):
            a, b = self.num(n.args[0]), self.num(n.args[1])
            return a + b if op == "fadd" else a - b
        elif op in ("fmul", "fdiv"):
            a, b = n.args
            for x, y in ((a, b), (b, a)) if op == "fmul" else ((b, a),):
                if x.op == "const":
                    c = self.num(x)
                    if z3.is_rational_value(c) and c.numerator_as_long():
                        return self.num(y) * c if op == "fmul" else self.num(y) / c
        elif op == "fpext":
            return self.num(n.args[0])
        return z3.Real("r%d" % n.id)

    def cond(self, c):
        r = self.bool.get(c.id)
        if r is None:
            r = self.bool[c.id] = self.cond1(c)
            self.keep.append(c)
        return r

    def cond1(self, c):
        if c.op == "fcmp":
            p = c.args[0]
            if p in ("ord", "true"):
                return z3.BoolVal(True)
            if p in ("uno", "false"):
                return z3.BoolVal(False)
            if p[1:] in REL:
                return REL[p[1:]](self.num(c.args[1]), self.num(c.args[2]))
        elif c.op in ("and", "or", "xor") and c.sort == 1:
            a, b = (self.cond(x) if isinstance(x, terms.Node) else z3.BoolVal(bool(x)) for x in c.args)
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[c.op](a, b)
        return z3.Bool("b%d" % c.id)


def feasible(domain, after=32):
    """Callback for the executor: does nothing for the first paths, so that short explorations pay nothing."""
    ab = Abstraction()
    s = z3.Solver()
    s.set("timeout", 2000)
    stack, ready = [], [False]

    def f(conds):
        if f.paths() < after:
            return True
        if not ready[0]:
            ready[0] = True
            for d in domain:
                s.add(ab.cond(d))
        key = [(c.id, v) for c, v in conds]
        k = 0
        while k < len(stack) and k < len(key) and stack[k] == key[k]:
            k += 1
        if k < len(stack):
            s.pop(len(stack) - k)
            del stack[k:]
        for c, v in conds[k:]:
            s.push()
            e = ab.cond(c)
            s.add(e if v else z3.Not(e))
            stack.append((c.id, v))
        return s.check() != z3.unsat

    return f
