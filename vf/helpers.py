"""The Python expressions the module evaluates at import (hyperjet.f, d, dd): the recorded source text is run by Python itself on stand-in
numbers whose accessors are executed symbolically through the binding sources, so that every result is a term over symbolic entries."""
import math
import random
import types

import numpy
import z3

from . import build, core, fp, py, real, spec, ss, terms
from .spec import X, hindex, length, var
from .terms import Node, fconst, mk


class Unsupported(Exception):
    pass


class NotNumber(Exception):
    pass


class Path:
    """Decisions taken at symbolic branches of the Python code."""
    cur = None

    def __init__(self, prefix):
        self.prefix, self.taken, self.conds = list(prefix), [], []

    def decide(self, c):
        k = len(self.taken)
        if k > 12:
            raise Unsupported("too many symbolic branches")
        v = self.prefix[k] if k < len(self.prefix) else True
        self.taken.append(v)
        self.conds.append((c, v))
        return v


def node(x):
    if isinstance(x, Sym):
        return x.node
    if isinstance(x, (bool, numpy.bool_, int, float, numpy.integer, numpy.floating)):
        return fconst(float(x))
    if isinstance(x, Number):
        if any(any(known(x._e, k)) for k in ("__float__", "__index__", "__array__")):
            raise Unsupported("conversion of a number to float")
        raise NotNumber("an object of class %s instead of a float" % x._e.label())
    raise Unsupported("operand %r" % type(x))


class Truth:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if Path.cur is None:
            raise Unsupported("branch outside a run")
        return Path.cur.decide(self.c)


class Sym(float):
    """A double whose value is a term."""
    def __new__(cls, n):
        s = float.__new__(cls, float("nan"))
        s.node = n
        return s

    def _op(op, swap=False):
        def f(self, o):
            if isinstance(o, numpy.ndarray):
                return NotImplemented
            a, b = self.node, node(o)
            return Sym(mk(op, (b, a) if swap else (a, b), "d"))
        return f

    __add__, __radd__ = _op("fadd"), _op("fadd", True)
    __sub__, __rsub__ = _op("fsub"), _op("fsub", True)
    __mul__, __rmul__ = _op("fmul"), _op("fmul", True)
    __truediv__, __rtruediv__ = _op("fdiv"), _op("fdiv", True)

    def _cmp(pred):
        return lambda self, o: Truth(mk("fcmp", (pred, self.node, node(o)), 1))

    __eq__, __ne__, __lt__, __gt__, __le__, __ge__ = map(_cmp, ("oeq", "une", "olt", "ogt", "ole", "oge"))
    __hash__ = object.__hash__
    conjugate = __pos__ = lambda self: self

    def __neg__(self): return Sym(mk("fneg", (self.node,), "d"))
    def __abs__(self): self._no("abs")
    def __bool__(self): return bool(self != 0.0)
    def _no(self, what="conversion"): raise Unsupported(what + " of a symbolic value")
    def __float__(self): self._no()
    def __int__(self): self._no()
    def __round__(self, *a): self._no("round")
    def __floordiv__(self, o): self._no("//")
    def __mod__(self, o): self._no("%")
    def __pow__(self, o): self._no("**")


class Entry:
    """One array entry: kind 'dd' (order, fixed size or -1, n), 'ss' (mask), 'flt' or 'int' (value)."""

    def __init__(self, kind, at, *args):
        self.kind, self.args = kind, args
        if kind == "dd":
            o, s, n = args
            self.unit = py.Unit(o, s, n)
            self.vars = [var("e%d_%d" % (at, k)) for k in range(length(o, n))]
            self.ins = dict(enumerate(self.vars))
            self.arg = py.O(o, n, 0)
        elif kind == "ss":
            m, = args
            self.unit = py.SUnit(m)
            self.ins = {0: var("e%d_f" % at)}
            for k in ss.bits(m):
                self.ins[1 + k] = var("e%d_d%d" % (at, k))
            self.vars = [self.ins[0]]
            self.arg = py.Sp(m, 0)
        elif kind == "flt":
            self.vars = [var("e%d" % at)]
            self.ins = {0: self.vars[0]}
        else:
            self.vars, self.ins = [X(float(args[0]))], {}

    def label(self):
        return {"dd": lambda: self.unit.cls + ("(%d)" % self.unit.n if self.unit.ssize < 0 else ""), "ss": lambda: "SScalar{%x}" % self.args[0],
                "flt": lambda: "float", "int": lambda: "int"}[self.kind]()

    def want(self, what):
        """expected (core shape, flat list of X)"""
        n = self.unit.n if self.kind == "dd" else 0
        if what == "f":
            return (), [self.vars[0]]
        if what == "d":
            return (n,), self.vars[1:1 + n]
        if self.kind != "dd" or self.args[0] == 1:
            return (0, 0), []
        return (n, n), [self.vars[hindex(n, i, j)] for i in range(n) for j in range(n)]


_known = {}


def known(e, name):
    k = (e.unit.cls if e.kind == "dd" else "SScalar", name)
    if k not in _known:
        p = e.unit.prob("has", name, [], {})
        p.iins += [0] * (44 - len(p.iins))
        paths, ex = core.explore(p)
        if len(paths) != 1 or paths[0].outcome != "ret":
            raise Unsupported("attribute table")
        _known[k] = [core.out_int(paths[0].out[1], q) for q in range(4)]
    return _known[k]


def result(kind, i, f):
    """Python value of a call's result; i(k): integers, f(k): entries"""
    if kind == py.FLT:
        return f(0)
    if kind == py.BOL:
        return bool(i(102))
    if kind == py.INT:
        return i(102)
    if kind in (py.SEQ, py.VIEW, py.MAT):
        n, r, c = i(102), i(103), i(104)
        a = numpy.empty(n, dtype=object)
        for k in range(n):
            a[k] = f(k)
        return a.reshape(r, c) if kind == py.MAT or (kind == py.VIEW and r != 1) else a
    if kind == py.NONE:
        return None
    if kind in (py.TYPEERR, py.NOTIMPL):
        raise TypeError("incompatible function arguments")
    raise Unsupported("result kind %r" % kind)


class Number:
    """Stands for an object of a bound class; env None: symbolic, otherwise native values."""

    def __init__(self, e, run):
        object.__setattr__(self, "_e", e)
        object.__setattr__(self, "_run", run)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        e = self._e
        try:
            g, m, c, s = known(e, name)
            if g:
                return self._run(e, name, "g", [])
        except AttributeError as x:         # must not look like a missing attribute
            raise Unsupported("internal: " + str(x))
        if m:
            return lambda *a, **k: self._run(e, name, "m", [(None, x) for x in a] + list(k.items()))
        if c or s:
            raise Unsupported("static member " + name)
        raise AttributeError(name)

    def __setattr__(self, name, v):
        raise Unsupported("attribute assignment")

    def __len__(self):
        return self._run(self._e, "__len__", "m", [])


def argument(x, kw):
    if isinstance(x, str) and x in ("full", "zeros", "x"):
        return py.Str(x, kw)
    if isinstance(x, bool):
        return py.B(int(x), kw)
    if isinstance(x, int):
        return py.I(x, kw)
    raise Unsupported("argument %r" % (x,))


def prob(e, name, kind, args):
    p = e.unit.prob("call", name, [e.arg] + [argument(x, kw) for kw, x in args], e.ins, kind=kind)
    p.iins += [0] * (44 - len(p.iins))
    if e.kind == "ss":
        p.iins[43] = e.unit.all
    return p


class Runner:
    def __init__(self, res):
        self.res = res
        self.cache = {}

    def symbolic(self, e, name, kind, args):
        k = (id(e), name, kind, str(args))
        if k not in self.cache:
            paths, ex = core.explore(prob(e, name, kind, args))
            self.res.paths += len(paths)
            self.res.instrs += ex.instrs
            self.cache[k] = paths
            self.res.functions |= set(getattr(ex, "functions", ()))
        paths = self.cache[k]
        if len(paths) != 1 or paths[0].conds:
            raise Unsupported("accessor %s with several paths" % name)
        q = paths[0]
        if q.outcome == "throw":
            raise RuntimeError(name)
        if q.outcome != "ret":
            raise Unsupported("accessor %s: %s %s" % (name, q.outcome, q.detail))
        data, idata = q.out

        def i(k):
            v = core.out_int(idata, k)
            if not isinstance(v, int):
                raise Unsupported("symbolic shape")
            return v

        def f(k):
            v = core.out_node(data, k)
            if not isinstance(v, Node):
                raise Unsupported("entry %d: %s" % (k, v))
            return Sym(v)
        return result(i(100), i, f)


def native(env):
    def run(e, name, kind, args):
        p = prob(e, name, kind, args)
        r = core.run_native(p, env)
        if r.outcome == "throw":
            raise RuntimeError(r.what)
        if r.outcome != "ret":
            raise Unsupported("native " + r.what)
        v = result(r.oo.get(100), lambda k: r.oo.get(k, 0), lambda k: r.out[k])
        return v.astype(float) if isinstance(v, numpy.ndarray) else v
    return run


class Vectorize(numpy.vectorize):
    """numpy's own vectorize with results kept as objects; the type they would be stored as is applied afterwards."""

    def __init__(self, pyfunc, otypes=None, *a, **k):
        sig = k.get("signature", a[3] if len(a) > 3 else None)
        if sig is not None and sig.split("->")[1].count("(") != 1 or isinstance(otypes, str) and len(otypes) != 1:
            raise Unsupported("several results")
        super().__init__(pyfunc, "O", *a, **k)
        self.declared = otypes
        self.sig = sig
        self.first = []
        inner = self.pyfunc

        def call(*a, **k):
            r = inner(*a, **k)
            self.first.append(r)
            return r
        self.pyfunc = call

    def __call__(self, *a, **k):
        self.first.clear()
        if any(numpy.size(numpy.asarray(x, dtype=object)) == 0 for x in a) and (self.declared is None or self.sig is not None):
            raise ValueError("size 0 inputs")
        r = super().__call__(*[numpy.asarray(x, dtype=object) for x in a], **k)
        t = self.declared
        if t is None:
            if not self.first:
                return r
            x = self.first[0]
            kind = "f" if isinstance(x, (Sym, float)) or isinstance(x, numpy.ndarray) and x.dtype == object else numpy.asarray(x).dtype.kind
            size = 8
        else:
            d = numpy.dtype(t[0] if isinstance(t, (list, tuple)) else t)
            kind, size = d.kind, d.itemsize
        if kind == "O" or kind == "f" and size == 8:
            return r
        if kind == "i" and size == 8:
            w = numpy.asarray(r, dtype=object)
            out = numpy.empty(w.shape, dtype=object)
            for i in numpy.ndindex(w.shape):
                out[i] = Sym(mk("sitofp", (mk("fptosi", (w[i].node,), 64),), "d")) if isinstance(w[i], Sym) else int(w[i])
            return out
        if kind == "f" and size == 4:
            w = numpy.asarray(r, dtype=object)
            out = numpy.empty(w.shape, dtype=object)
            for i in numpy.ndindex(w.shape):
                out[i] = Sym(mk("fpext", (mk("fptrunc", (node(w[i]),), "s"),), "d"))
            return out
        raise Unsupported("result type " + kind)


class NP(types.ModuleType):
    vectorize = Vectorize

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        return getattr(numpy, name)


def notes():
    """assignments made while the module's main.cpp set it up: {attribute: text or None}, {global: module}"""
    attrs, globs = {}, {}
    k, count = 0, 1
    while k < count:
        p = core.Problem("module attributes", "main_py.cpp", ['HJ_MAIN="%s/python/src/main.cpp"' % build.REPO], "notes", {}, [k], (), {}, {},
                         mode="fp", extra=py.STUB, leaks=False, nin=64)
        p.setup = "hjx_setup"
        paths, ex = core.explore(p)
        if len(paths) != 1 or paths[0].outcome != "ret":
            raise Unsupported("module set-up")
        g = lambda q: core.out_int(paths[0].out[1], q)
        count = g(0)
        if not count:
            break
        name = "".join(chr(g(10 + i)) for i in range(g(3)))
        text = None if g(4) < 0 else "".join(chr(g(100 + i)) for i in range(g(4)))
        if g(1) == ord("a"):
            attrs[name] = text if g(2) == py.STR else None
        else:
            globs[name] = text
        k += 1
    return attrs, globs


def arrays(shape, entries, make):
    if shape is None:
        return make(entries[0])
    a = numpy.empty(shape, dtype=object)
    for i, e in zip(numpy.ndindex(*shape), entries):
        a[i] = make(e)
    return a


def validate(what, shape, entries, texts, globs, res, rnd):
    """the same call on native numbers at one random point"""
    env = {v: rnd.uniform(-3, 3) for v in terms.variables([x.n for e in entries for x in e.ins.values()])}
    core_shape = entries[0].want(what)[0] if entries else ()
    bad = replay(texts[what], globs, shape, entries, what, (() if shape is None else shape) + core_shape, env)
    if bad:
        res.inconclusive.append("hyperjet.%s: encoding and native run differ: %s" % (what, bad))
    else:
        res.validated += 1


def decide(what, shape, entries, texts, globs, res):
    name = "hyperjet.%s of %s of %s" % (what, "a single entry" if shape is None else "an array of shape %s" % (shape,),
                                        ", ".join(e.label() for e in entries) or "nothing")
    res.problems += 1
    text = texts.get(what)
    if text is None:
        res.inconclusive.append(name + ": not a Python expression evaluated at import")
        return
    if set(globs.values()) - {"numpy"}:
        res.inconclusive.append(name + ": other modules in use")
        return
    core_shape = entries[0].want(what)[0] if entries else ()
    wshape = (() if shape is None else shape) + core_shape
    want = [x.n for e in entries for x in e.want(what)[1]]
    run = Runner(res)
    vs = sorted(terms.variables([x.n for e in entries for x in e.ins.values()]))
    rnd = random.Random(core.SEED)
    todo, done = [[]], 0
    while todo:
        path = Path(todo.pop())
        done += 1
        if done > 64:
            res.inconclusive.append(name + ": too many paths")
            return
        Path.cur = path
        why = got = None
        try:
            f = eval(text, {k: NP() for k in globs})
            got = f(arrays(shape, entries, lambda e: Number(e, run.symbolic) if e.kind in ("dd", "ss") else
                           Sym(e.vars[0].n) if e.kind == "flt" else e.args[0]))
            got = numpy.asarray(got, dtype=object)
        except Unsupported as e:
            res.inconclusive.append("%s: unsupported: %s" % (name, e))
            return
        except build.CompileError as e:
            res.inconclusive.append("%s: does not compile: %s" % (name, str(e)[-300:]))
            return
        except Exception as e:
            why = "raises %s: %s" % (type(e).__name__, str(e)[:200])
        finally:
            Path.cur = None
        for k in range(len(path.prefix), len(path.taken)):
            todo.append(path.taken[:k] + [not path.taken[k]])
        ask = Ask(path.conds)
        if path.conds and ask.differ([]) == ("unsat", None):
            continue
        res.reach += 1
        res.asserted += 1
        env = None
        if why is None:
            if got.shape != wshape:
                why = "shape %s instead of %s" % (got.shape, wshape)
            else:
                try:
                    pairs = list(zip([node(x) for x in got.reshape(-1)], want))
                except NotNumber as e:
                    pairs, why = None, str(e)
                except Unsupported as e:
                    res.inconclusive.append("%s: unsupported: %s" % (name, e))
                    return
            if why is None:
                res.asserted += len(pairs)
                r, env = ask.differ(pairs) if pairs else ("unsat", None)
                if r == "sat":          # not because of overflow or underflow of an intermediate result
                    r, env = ask.differ(pairs, True)
                if r == "unsat":
                    res.discharged += 1 + len(pairs)
                    res.identical += sum(a is b for a, b in pairs)
                    if len(res.samples) < 3 and pairs:
                        res.samples.append({"problem": name, "implementation": terms.show(pairs[-1][0], 4), "oracle": terms.show(pairs[-1][1], 4),
                                            "expression": text, "verdict": "unsat"})
                    continue
                why = "entries differ (%s)" % r
        for k in range(25):
            e = dict(env) if env is not None and k == 0 else {v: rnd.choice((rnd.uniform(-3, 3), 0.5, -2.25, 1e9, -0.25, 0.0)) for v in vs}
            for v in vs:
                e.setdefault(v, 0.75)
            if not fp.conds_ok(path.conds, e):
                continue
            bad = replay(text, globs, shape, entries, what, wshape, e)
            if bad:
                rec = {"property": None, "problem": name, "why": why, "entry_point": "hyperjet." + what, "harness": "vf/helpers.py",
                       "defines": [], "inputs": {v: {"value": repr(x), "bits": core.hexd(x)} for v, x in e.items()}, "integers": [],
                       "failing_allocation": None, "output_index": bad[0], "expected": str(bad[1]), "observed": str(bad[2]),
                       "expression": text}
                res.violations.append(rec)
                return
        res.inconclusive.append("%s: %s (not reproduced)" % (name, why))
        return
    if res.problems % 13 == 0:
        validate(what, shape, entries, texts, globs, res, rnd)


class Ask:
    def __init__(self, conds):
        self.conds = conds

    def differ(self, pairs, moderate=False):
        ctx = fp.Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in self.conds]
            q = [z3.Not(ctx.val(a) == ctx.val(b)) for a, b in pairs]
        except fp.NotFp:
            return "unknown", None
        if moderate:
            for v in ctx.vars.values():
                a = z3.fpAbs(v)
                zc.append(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v), z3.fpIsZero(v),
                                z3.And(z3.fpLEQ(a, z3.FPVal(1e100, fp.F64)), z3.fpGEQ(a, z3.FPVal(1e-100, fp.F64)))))
        real.STATS.fp_queries += 1
        r, m = real.check(zc + ([z3.Or(q)] if pairs else []), 20000)
        return r, ({n: fp.model_val(m, v) for n, v in ctx.vars.items()} if r == "sat" else None)


def replay(text, globs, shape, entries, what, wshape, env):
    """None when Python's own result on native numbers is the expected one, otherwise (index, expected, observed)"""
    ev = lambda x: terms.evaluate(x.n, env)
    want = [ev(x) for e in entries for x in e.want(what)[1]]
    try:
        f = eval(text, {k: numpy for k in globs})
        got = numpy.asarray(f(arrays(shape, entries, lambda e: Number(e, native(env)) if e.kind in ("dd", "ss") else
                                     ev(e.vars[0]) if e.kind == "flt" else e.args[0])))
    except Unsupported:
        return None
    except Exception as e:
        return -1, "an array of shape %s" % (wshape,), "%s: %s" % (type(e).__name__, str(e)[:200])
    if got.shape != wshape:
        return -1, "shape %s" % (wshape,), "shape %s" % (got.shape,)
    for k, (g, w) in enumerate(zip(got.reshape(-1), want)):
        g, w = float(g), float(w)
        if not fp.same(g, w) and not (math.isfinite(g) and math.isfinite(w) and g != 0 and abs(g - w) <= 1e-12 * abs(w)):
            return k, w, g
    return None
