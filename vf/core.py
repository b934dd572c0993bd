"""Problems (one entry point, symbolic inputs, an oracle), their decision by the solver, and replay against native code."""
import copy
import itertools
import json
import math
import os
import random
import struct
import subprocess
import time

import mpmath as mp
import z3

from . import build, engine, fp, intm, ir, lra, mem, race, real, spec, terms
from .terms import Node, fconst, fvar, mk

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
I64 = ("i", 64)
NOUT, NOO = 120000, 4000
_mods = {}


def module(src, defs, extra=(), passes=build.PASSES):
    k = (src, tuple(defs), tuple(extra), passes)
    if k not in _mods:
        if len(_mods) > 6:
            _mods.clear()
        _mods[k] = engine.Module(build.ir_text(src, defs, extra, passes))
    return _mods[k]


class Problem:
    """fn: entry point; ins: {index: term}; iins: [ints]; domain: [cond terms]; expect: {index: term or X};
    iexpect: {index: int or 1-bit/64-bit term}; want: 'ret', 'throw' or 'assert'; mode: 'real' or 'fp'."""

    def __init__(self, name, src, defs, fn, ins, iins, domain=(), expect=None, iexpect=None, want="ret", mode="real",
                 extra=(), bits=False, hash_model="fnv", throw_type="_ZTISt13runtime_error", same=None, note="",
                 nin=None, max_paths=256, leaks=True, uninit=False, budget=30_000_000, unchanged=None, native_fn=None, fault=None):
        self.name = name
        self.fault = fault
        self.src = src
        self.defs = list(defs)
        self.extra = list(extra)
        self.fn = "hjx_" + fn
        self.ins = {k: (v.n if isinstance(v, spec.X) else v) for k, v in ins.items()}
        self.iins = list(iins)
        self.domain = [d for d in domain]
        self.expect = {k: (v.n if isinstance(v, spec.X) else v) for k, v in (expect or {}).items()}
        self.iexpect = dict(iexpect or {})
        self.want = want
        self.mode = mode
        self.hash_model = hash_model
        self.throw_type = throw_type
        self.note = note
        self.nin = nin or (max(self.ins) + 1 if self.ins else 1)
        self.max_paths = max_paths
        self.leaks = leaks
        self.budget = budget
        self.native_defs = []
        self.setup = None
        self.at_end = None
        self.externs = {}
        self.native_fn = native_fn and "hjx_" + native_fn
        self.touched = set()        # mutable static objects the call accesses (set by exploration)
        self.share = False          # operands are built by hjx_share and visible to other threads
        self.warm = None            # a problem whose call comes first, in the same process

    def terms(self):
        """every term the caller chooses the value of"""
        return list(self.ins.values()) + [x for x in self.iins + [self.fault] if isinstance(x, Node)] + (self.warm.terms() if self.warm else [])


class Result:
    def __init__(self):
        self.problems = 0
        self.paths = 0
        self.instrs = 0
        self.asserted = 0        # output entries / facts compared
        self.discharged = 0
        self.identical = 0
        self.inconclusive = []
        self.violations = []
        self.known = []
        self.functions = set()
        self.validated = 0
        self.samples = []
        self.reach = 0
        self.extra = {}
        self.stats = real.Stats()

    def merge(self, o):
        for k in ("problems", "paths", "instrs", "asserted", "discharged", "identical", "validated", "reach"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.inconclusive += o.inconclusive
        self.violations += o.violations
        self.known += o.known
        self.functions |= o.functions
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.stats.add(o.stats)


_cache = {}


def buffers(ex, p):
    i = ex.alloc(8 * max(p.nin, 1), "input")
    oi = ex.objs[i >> engine.SHIFT]
    for k, v in p.ins.items():
        engine.store_cells(oi.data, 8 * k, 8, v)
    oi.const = True
    o = ex.alloc(8 * min(NOUT, max([13000] + [k + 2500 for k in p.expect])), "output")
    ii = ex.alloc(8 * max(len(p.iins), 1), "input")
    oii = ex.objs[ii >> engine.SHIFT]
    for k, v in enumerate(p.iins):
        engine.store_cells(oii.data, 8 * k, 8, v & (2 ** 64 - 1) if isinstance(v, int) else v)
    oii.const = True
    return [i, o, ii, ex.alloc(8 * NOO, "output")]


def explore(p, mod=None):
    mod = mod or module(p.src, p.defs, p.extra)
    ex = engine.Executor(mod, max_paths=p.max_paths, hash_model=p.hash_model, budget=p.budget, externs=p.externs)
    ex.feasible = intm.feasible(p) if p.mode == "int" else lra.feasible(p.domain) if p.mode == "real" else None
    if p.mode == "real":
        ex.feasible.paths = lambda: ex.npaths
    if p.fn not in mod.m.fns:
        raise build.CompileError("no entry point " + p.fn)

    def body(ex):
        if p.setup:
            ex.boot(p.setup)
        if p.warm is not None:
            try:
                ex.call(p.warm.fn, buffers(ex, p.warm))
            except engine.CxxThrow:
                raise engine.PathEnd("infeasible", "")
            except engine.PathEnd as e:
                raise engine.PathEnd(e.kind if e.kind in ("unsupported", "budget") else "infeasible", e.msg)
        i, o, ii, oo = buffers(ex, p)
        ex.io = (o, oo)
        if p.share:
            ex.call("hjx_share", [i, o, ii, oo])
            ex.freeze({x >> engine.SHIFT for x in (o, oo)})
        ex.begin()
        ex.fault, ex.armed = p.fault, True
        return ex.call(p.fn, [i, o, ii, oo])

    def finish(ex, r):
        o, oo = ex.io
        if p.at_end is not None:
            p.at_end(ex)
        return ex.objs[o >> engine.SHIFT].data, ex.objs[oo >> engine.SHIFT].data

    paths = list(ex.explore(body, finish))
    return paths, ex


def out_node(data, k):
    """Entry k of the output array: a term, 'unset' or 'mixed'."""
    b = data[8 * k:8 * k + 8]
    if b[0] is None:
        return "unset"
    if isinstance(b[0], tuple) and b == terms.cells(b[0][0]):
        n = b[0][0]
        return n if n.sort == "d" else mk("frombits", (n,), "d")
    if all(isinstance(x, int) for x in b):
        return mk("const", (int.from_bytes(bytes(b), "little"),), "d")
    return "mixed"


def out_int(data, k):
    b = data[8 * k:8 * k + 8]
    if all(isinstance(x, int) for x in b):
        return terms.sgn(int.from_bytes(bytes(b), "little"), 64)
    if b[0] is None:
        return "unset"
    if isinstance(b[0], tuple) and b[0][1] == 0:
        n = b[0][0]
        if b[:len(terms.cells(n))] == terms.cells(n):
            return n if n.sort == 64 else mk("zext", (n,), 64)
    return "mixed"


# ---------------------------------------------------------------- native runs

def hexd(v):
    return "%016x" % terms.d2bits(v)


class Native:
    def __init__(self, outcome, what, out, oo, text):
        self.outcome, self.what, self.out, self.oo, self.text = outcome, what, out, oo, text


def input_file(p, env):
    vals = []
    for k in range(p.nin):
        n = p.ins.get(k)
        vals.append("-" if n is None else hexd(terms.evaluate(n, env)))
    os.makedirs(build.BUILD, exist_ok=True)
    f = os.path.join(build.BUILD, "in.%d.%d" % (os.getpid(), random.getrandbits(48)))
    with open(f, "w") as h:
        h.write("%d %d\n%s\n%s\n" % (len(vals), len(p.iins), " ".join(vals), " ".join(
            str(i if isinstance(i, int) else terms.sgn(int(terms.evaluate(i, env)), 64)) for i in p.iins)))
    return f


def run_native(p, env, mode="nb", timeout=60, native_fn=None):
    exe = build.native(p.src, p.defs + p.native_defs, list(p.extra) + (["-DHJ_FAULT"] if p.fault is not None else []), mode)
    f = input_file(p, env)
    cmd = [exe, native_fn or p.fn, f]
    files = [f]
    if p.warm is not None:
        files.append(input_file(p.warm, env))
        cmd += [p.warm.fn, files[1]]
    e = dict(os.environ)
    if p.fault is not None:
        e["HJ_FAULT"] = str(int(terms.evaluate(p.fault, env)))
    if mode == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=77"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    if mode == "O0":
        cmd = ["valgrind", "-q", "--error-exitcode=77", "--track-origins=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        rc = r.returncode
        so, se = r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired:
        rc, so, se = -9, "", "timeout"
    finally:
        for f in files:
            os.unlink(f)
    out, oo = {}, {}
    outcome, what = "crash", "exit code %d: %s" % (rc, se[-800:])
    for l in so.splitlines():
        w = l.split(" ", 2)
        if w[0] == "ret":
            outcome, what = "ret", ""
        elif w[0] == "throw":
            outcome, what = "throw", " ".join(w[1:])
        elif w[0] == "o":
            out[int(w[1])] = terms.bits2d(int(w[2], 16))
        elif w[0] == "i":
            oo[int(w[1])] = int(w[2])
    if rc == 77 or (rc != 0 and outcome != "crash"):
        outcome = "crash"
        what = "sanitizer: " + (se.split("SUMMARY")[0][-700:] if se else "exit code %d" % rc)
    if rc == -6 and "Assertion" in se:
        outcome, what = "assert", se[-400:]
    elif rc < 0:
        outcome, what = "crash", "signal %d %s" % (-rc, se[-400:])
    return Native(outcome, what, out, oo, so)


def replay_record(p, env, k, expected, observed, why):
    return {"property": None, "problem": p.name, "why": why, "entry_point": p.native_fn or p.fn, "harness": "harness/" + p.src,
            "defines": p.defs, "inputs": {str(i): {"value": repr(terms.evaluate(n, env)), "bits": hexd(terms.evaluate(n, env))}
                                          for i, n in sorted(p.ins.items())},
            "integers": [i if isinstance(i, int) else terms.sgn(int(terms.evaluate(i, env)), 64) for i in p.iins],
            "failing_allocation": None if p.fault is None else int(terms.evaluate(p.fault, env)), "output_index": k, "expected": str(expected), "observed": str(observed),
            "first_call": p.warm and replay_record(p.warm, env, None, None, None, "comes first in the same process")}


# ---------------------------------------------------------------- deciding one problem

def model_env(ctx, model, p, names):
    env = {}
    for name in names:
        x = ctx.vars.get(name)
        env[name] = real.model_float(model, x) if x is not None and model is not None else 0.75
    return env


def env_ok(conds, env):
    for c, v in conds:
        try:
            if bool(spec.mp_eval(c, env)) != v:
                return False
        except (spec.MpError, KeyError, terms.EvalError):
            return False
    return True


def candidates(p, ctx, base, conds, names, rnd, eqs=None):
    """Concrete points inside domain and path, from solver models first."""
    tried = 0
    xs = [ctx.vars[n] for n in names if n in ctx.vars]
    boxes = [[z3.And(x >= -4, x <= 4, z3.Or(x >= z3.Q(1, 4), x <= z3.Q(-1, 4))) for x in xs],
             [z3.And(x >= -4, x <= 4) for x in xs], []]
    for b in boxes:
        r, m = real.check(base + b, 3000)
        if r == "sat":
            env = model_env(ctx, m, p, names)
            for n in names:
                if n not in ctx.vars:
                    env[n] = rnd.uniform(0.5, 2)
            tried += 1
            for k, x in (eqs or {}).items():
                env[k] = env[x.args[0]]
            if env_ok(conds, env):
                yield env
            fixed = dict(env)
            for _ in range(12):
                e2 = {n: (v if rnd.random() < 0.4 else v + rnd.uniform(-.5, .5)) for n, v in fixed.items()}
                if env_ok(conds, e2):
                    yield e2
    for scale in (0.9, 3.0):
        for _ in range(40):
            env = {n: rnd.uniform(-scale, scale) for n in names}
            if env_ok(conds, env):
                yield env


def confirm_real(p, env, conds, impl=None):
    """Runs the real code at env; returns (index, expected, observed) of a reproduced difference, or None."""
    nat = run_native(p, env)
    if nat.outcome != p.want:
        return (-1, p.want, nat.outcome + " " + nat.what)
    if p.want != "ret":
        return None
    for k, v in p.iexpect.items():
        if isinstance(v, int) and nat.oo.get(k) != v:
            return ("int %d" % k, v, nat.oo.get(k))
    memo = {}
    for k, sp in p.expect.items():
        try:
            e = spec.mp_eval(sp, env, memo)
        except spec.MpError:
            continue
        v = nat.out.get(k)
        if v is None:
            return (k, mp.nstr(e, 17), "entry not present")
        if v != v or math.isinf(v):
            if abs(e) < mp.mpf(10) ** 300:
                return (k, mp.nstr(e, 17), v)
            continue
        err = abs(mp.mpf(v) - e)
        if err == 0:
            continue
        im = None
        if impl is not None and isinstance(impl.get(k), Node) and env_ok(conds, env):
            try:
                im = spec.mp_eval(impl[k], env)
            except (spec.MpError, KeyError):
                im = None
        if im is not None:
            rnd = abs(mp.mpf(v) - im)
            if abs(im - e) > mp.mpf(10) ** -25 * (1 + abs(e)) and err > 100 * rnd and err > mp.mpf(10) ** -11 * abs(e):
                return (k, mp.nstr(e, 17), repr(v))
        elif err > mp.mpf(10) ** (-2 if real.SINGLE else -6) * (1 + abs(e)):
            return (k, mp.nstr(e, 17), repr(v))
    return None


def violation(res, p, env, k, expected, observed, why):
    rec = replay_record(p, env, k, expected, observed, why)
    res.violations.append(rec)


def decide(p, res, mod=None, may_miss=False):
    """Explores p's entry point, asks the solver about every path and output, fills in res."""
    res.problems += 1
    try:
        paths, ex = explore(p, mod)
    except build.CompileError as e:
        res.inconclusive.append(p.name + ": does not compile: " + str(e)[-400:])
        return
    except RecursionError:
        res.inconclusive.append(p.name + ": recursion")
        return
    res.paths += len(paths)
    res.instrs += ex.instrs
    res.functions |= {f for f in ex.executed if not f.startswith("hjx_")}
    remember(p, paths)
    names = sorted(terms.variables(p.terms()))
    reached = tried = False
    for path in paths:
        if len(res.violations) > 5:
            break
        if path.outcome in ("unsupported", "budget"):
            reached = True
            if not tried:
                tried = True
                if unencodable(p, res, names, "%s: %s" % (path.outcome, path.detail)):
                    break
            res.inconclusive.append("%s: %s %s" % (p.name, path.outcome, path.detail))
            continue
        r = {"real": decide_real, "fp": fp.decide_path, "int": intm.decide_path, "mem": mem.decide_path, "race": race.decide_path}[p.mode](p, path, res, names)
        reached = reached or r
    if not reached and may_miss:
        pass        # this combination of path conditions does not occur
    elif not reached and not res.violations:
        res.inconclusive.append(p.name + ": no feasible path reaches the assertion")
    elif reached:
        res.reach += 1


HISTORY = []


def remember(p, paths):
    t = set().union(*(getattr(q, "touched", ()) for q in paths)) if paths else set()
    p.touched = t
    if t and p.warm is None and p.mode != "race":
        HISTORY.append((copy.copy(p), t, set().union(*(getattr(q, "written", ()) for q in paths))))


def after(p, w):
    """p with a call of w before it."""
    memo = {}
    v = copy.copy(w)
    v.ins = {k: terms.rename(n, "w!", memo) for k, n in w.ins.items()}
    v.iins = [terms.rename(n, "w!", memo) if isinstance(n, Node) else n for n in w.iins]
    q = copy.copy(p)
    q.warm = v
    q.domain = list(p.domain) + [terms.rename(d, "w!", memo) for d in w.domain]
    q.name = "%s, after %s" % (p.name, w.name)
    q.max_paths = max(p.max_paths, 1024)
    return q


def histories(res, limit=160, seconds=120):
    """Calls that touch static state another call writes are decided again after such a call."""
    recs, HISTORY[:] = list(HISTORY), []
    writers = [r for r in recs if r[2] and r[0].want == "ret" and r[0].fault is None]
    if not writers or res.violations:
        return
    res.extra["calls_writing_static_state"] = len(writers)
    t0 = time.time()
    todo = []
    for j, (p, touched, _) in enumerate(recs):
        if p.fault is not None:
            continue
        tu = (p.src, p.defs, p.extra, p.setup)
        seen, k = set(), 0
        ws = [r for r in writers if r[0] is p] + writers[j:] + writers[:j]
        ws = ws[:1] + [r for r in ws if r[0].fn == p.fn][1:4] + [r for r in ws if r[0].fn != p.fn][:400]
        for w, _, written in ws:
            key = (w.fn, tuple(w.iins) if w.fn == p.fn else ())
            if k < 6 and key not in seen and written & touched and (w.src, w.defs, w.extra, w.setup) == tu:
                seen.add(key)
                todo.append((k, len(todo), after(p, w)))
                k += 1
    todo.sort(key=lambda t: t[:2])
    for n, (_, _, q) in enumerate(todo):
        if res.violations:
            break
        if n >= limit or time.time() - t0 > seconds:
            res.inconclusive.append("%d of %d sequences of two calls that share static state not run" % (len(todo) - n, len(todo)))
            break
        decide(q, res, may_miss=True)
        res.extra["sequences_of_two_calls"] = res.extra.get("sequences_of_two_calls", 0) + 1


def has_call(n, memo):
    if n.id not in memo:
        memo[n.id] = n.op == "call" or any(has_call(a, memo) for a in n.args if isinstance(a, Node))
    return memo[n.id]


def unencodable(p, res, names, what):
    """The executor met code it cannot encode: the verdict stays open, but a difference that shows natively is still reported."""
    conds = [(d, True) for d in p.domain]
    rnd = random.Random(SEED)
    bad = []
    if p.mode == "real":
        for env in itertools.islice(candidates(p, dummy_ctx(names), [], conds, names, rnd), 4):
            c = confirm_real(p, env, conds)
            if c and c[0] != -1 or c and p.want == "ret":
                bad.append((env, c))
    elif p.mode == "fp":
        memo = {}
        simple = {k: v for k, v in p.expect.items() if isinstance(v, Node) and not has_call(v, memo)}
        for _ in range(40):
            env = {n: rnd.uniform(-3, 3) for n in names}
            if not fp.conds_ok(conds, env):
                continue
            nat = run_native(p, env)
            c = None
            if nat.outcome != p.want:
                c = (-1, p.want, nat.outcome + " " + nat.what)
            elif p.want == "ret":
                ev = {}
                for k, v in simple.items():
                    w = terms.evaluate(v, env, ev)
                    if nat.out.get(k) is None or not fp.same(nat.out[k], w):
                        c = (k, w, nat.out.get(k))
                for k, v in p.iexpect.items():
                    w = terms.sgn(int(terms.evaluate(v, env, ev)), 64) if isinstance(v, Node) else v
                    if nat.oo.get(k) != w:
                        c = ("int %d" % k, w, nat.oo.get(k))
            if c is None:
                return False
            bad.append((env, c))
            if len(bad) >= 3:
                break
    if len(bad) >= 2:
        env, c = bad[0]
        violation(res, p, env, c[0], c[1], c[2], "not encodable (%s), but the native run differs from the oracle" % what[:120])
        return True
    return False


def memory_violation(p, path, env, res, what):
    """Reproduces a memory / UB error natively with sanitizers, or valgrind for uninitialised data."""
    for mode in ("asan", "O0"):
        nat = run_native(p, env, mode)
        if nat.outcome == "crash" or nat.outcome == "assert" != p.want:
            violation(res, p, env, -1, p.want, nat.what, what)
            return True
    return False


def cond_key(p, path, extra):
    return [mk("ite_c", (c, v), 1) for c, v in path.conds] + list(p.domain) + extra


def decide_real(p, path, res, names):
    conds = [(d, True) for d in p.domain] + list(path.conds)
    rnd = random.Random(SEED)
    ok_outcome = path.outcome == p.want and not (p.want == "throw" and p.throw_type and path.detail != p.throw_type)
    # reachability of the path under the domain
    key, order = real.canon([mk("c", (c, v), 1) for c, v in conds])
    key = ("reach", key)
    hit = _cache.get(key)
    if hit is None:
        ctx = real.Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
            r, m = real.check(zc + ctx.axioms)
        except real.NotReal as e:
            r, m, zc = "unknown", None, []
            res.inconclusive.append("%s: path condition: %s" % (p.name, e))
        hit = _cache[key] = r
    else:
        real.STATS.cached += 1
    if hit == "unsat":
        return False
    if not ok_outcome:
        res.asserted += 1
        ctx = real.Ctx()
        try:
            zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
        except real.NotReal:
            zc = []
        for n in names:
            ctx.val(fvar(n))
        what = "%s %s instead of %s" % (path.outcome, path.detail, p.want)
        tried = 0
        for env in candidates(p, ctx, zc + ctx.axioms, conds, names, rnd):
            tried += 1
            if path.outcome == "error":
                if memory_violation(p, path, env, res, what):
                    return True
            else:
                nat = run_native(p, env)
                if nat.outcome != p.want:
                    violation(res, p, env, -1, p.want, nat.outcome + " " + nat.what, what)
                    return True
            if tried >= 3:
                break
        res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, what))
        return True
    if p.leaks and path.leaks:
        res.asserted += 1
        env = {n: 0.75 for n in names}
        if not memory_violation(p, path, env, res, "leak of %d heap objects" % len(path.leaks)):
            res.inconclusive.append(p.name + ": leak (not reproduced)")
        return True
    if path.out is None:
        return True
    data, idata = path.out
    # integer outputs
    for k, v in p.iexpect.items():
        res.asserted += 1
        got = out_int(idata, k)
        if got == v or got is v:
            res.discharged += 1
            continue
        ctx = real.Ctx()
        zc = [ctx.cond(c) if b else z3.Not(ctx.cond(c)) for c, b in conds]
        for env in candidates(p, ctx, zc + ctx.axioms, conds, names, rnd):
            nat = run_native(p, env)
            if nat.outcome != p.want or nat.oo.get(k) != v:
                violation(res, p, env, "int %d" % k, v, nat.oo.get(k, nat.outcome + nat.what), "wrong integer output")
                return True
            break
        res.inconclusive.append("%s: integer output %d is %r, expected %r (not reproduced)" % (p.name, k, got, v))
    impl = {k: out_node(data, k) for k in p.expect}
    eqs = terms.equalities(path.conds) if p.warm else None
    if eqs:
        memo = {}
        conds0, conds = conds, [(terms.substitute(c, eqs, memo), v) for c, v in conds]
    bad = 0
    for k, sp in p.expect.items():
        res.asserted += 1
        im = impl[k]
        if eqs and isinstance(im, Node):
            im, sp = terms.substitute(im, eqs, memo), terms.substitute(sp, eqs, memo)
        if not isinstance(im, Node) or "undef" in terms.variables([im]):
            env = next(candidates(p, dummy_ctx(names), [], conds, names, rnd), {n: 0.75 for n in names})
            if isinstance(im, Node):
                if memory_violation(p, path, env, res, "output entry %d is uninitialised" % k):
                    return True
            else:
                c = confirm_real(p, env, conds)
                if c:
                    violation(res, p, env, c[0], c[1], c[2], "output entry %d not set" % k)
                    return True
            res.inconclusive.append("%s: output %d: %s (not reproduced)" % (p.name, k, im))
            continue
        key, order = real.canon([im, sp] + [mk("c", (c, v), 1) for c, v in conds])
        hit = _cache.get(key)
        if hit == "unsat":
            real.STATS.cached += 1
            res.discharged += 1
            if im is sp:
                res.identical += 1
            continue
        v = query_entry(p, im, sp, conds)
        if v[0] == "unsat":
            _cache[key] = "unsat"
            res.discharged += 1
            if im is sp:
                res.identical += 1
            if len(res.samples) < 3:
                res.samples.append({"problem": p.name, "output": k, "implementation": terms.show(im, 5)[:300],
                                    "oracle": terms.show(sp, 5)[:300], "conditions": [terms.show(c, 4)[:120] for c, _ in conds],
                                    "verdict": "unsat"})
            continue
        status, why, base, ctx = v
        if status == "sat":
            n = 0
            for n_ in names:
                ctx.val(fvar(n_))
            for env in candidates(p, ctx, base, conds0 if eqs else conds, names, rnd, eqs):
                n += 1
                c = confirm_real(p, env, conds0 if eqs else conds, impl)
                if c:
                    violation(res, p, env, c[0], c[1], c[2], why)
                    return True
                if n >= 12:
                    break
        bad += 1
        res.inconclusive.append("%s: output %d: %s%s" % (p.name, k, why, " (solver model not reproduced natively)"
                                                         if status == "sat" else ""))
        if bad >= 4:
            break
    return True


def dummy_ctx(names):
    c = real.Ctx()
    for n in names:
        c.val(fvar(n))
    return c


def query_entry(p, im, sp, conds):
    """('unsat',) when im equals sp and every operation in im is defined, for all values satisfying conds."""
    ctx = real.Ctx()
    try:
        zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
        ctx.oblig = {}
        vi = ctx.val(im)
        obl = list(ctx.oblig.values())
        vs = ctx.val(sp)
        sobl = [b for b, w in ctx.oblig.values()]
    except real.NotReal as e:
        # e.g. division by the constant zero: let the replay decide
        ctx2 = real.Ctx()
        try:
            zc = [ctx2.cond(c) if v else z3.Not(ctx2.cond(c)) for c, v in conds]
        except real.NotReal:
            zc = []
        return ("sat", "no value in real arithmetic: " + str(e), zc + ctx2.axioms, ctx2)
    base = zc + ctx.axioms
    for b, what in obl:
        r, m = real.check(base + [z3.Not(b)])
        if r == "sat":
            extra = ctx.refine()
            if extra:
                base = base + extra
                r, m = real.check(base + [z3.Not(b)])
        if r == "sat":
            return ("sat", "undefined intermediate: " + what, base + [z3.Not(b)], ctx)
        if r == "unknown":
            return ("unknown", "solver gave no answer on: " + what, base, ctx)
    d = ctx.vadd(vi, ctx.neg(vs))
    base = zc + ctx.axioms + sobl
    q = ctx.rel0(d, "!=")
    r, m = real.check(base + [q])
    if r == "sat":
        extra = ctx.refine()
        if extra:
            base = base + extra
            r, m = real.check(base + [q])
            if r == "unknown":
                r = "sat"
    if r == "unsat":
        return ("unsat",)
    if r == "sat":
        return ("sat", "result differs from the oracle", base + [q], ctx)
    return ("unknown", "solver gave no answer on equality", base, ctx)


# ---------------------------------------------------------------- validation of the encoding against native runs

def validate(p, res, runs=1, rnd=None, lo=-2.0, hi=2.0):
    """Evaluates the symbolic outputs in IEEE arithmetic at concrete points and compares with native execution bit by bit."""
    rnd = rnd or random.Random(SEED)
    names = sorted(terms.variables(p.terms()))
    try:
        paths, ex = explore(p)
    except build.CompileError:
        return
    for _ in range(runs):
        env = {n: rnd.uniform(lo, hi) for n in names}
        nat = run_native(p, env)
        for path in paths:
            try:
                if not all(bool(terms.evaluate(c, env)) == v for c, v in path.conds):
                    continue
            except terms.EvalError:
                continue
            if path.outcome != nat.outcome:
                if nat.outcome == "crash" or path.outcome in ("unsupported", "budget"):
                    break
                res.inconclusive.append("ENCODING MISMATCH %s: native %s, symbolic %s" % (p.name, nat.outcome, path.outcome))
                break
            if path.outcome != "ret":
                res.validated += 1
                break
            data, idata = path.out
            okk = True
            memo = {}
            for k, v in nat.out.items():
                n = out_node(data, k)
                if not isinstance(n, Node):
                    okk = False
                    break
                try:
                    w = terms.evaluate(n, env, memo)
                except terms.EvalError:
                    continue
                if terms.d2bits(w) != terms.d2bits(v) and not (w != w and v != v):
                    okk = False
                    res.inconclusive.append("ENCODING MISMATCH %s: output %d native %r symbolic %r" % (p.name, k, v, w))
                    break
            for k, v in nat.oo.items():
                n = out_int(idata, k)
                if isinstance(n, Node):
                    n = terms.sgn(int(terms.evaluate(n, env)), 64)
                if n != v:
                    okk = False
                    res.inconclusive.append("ENCODING MISMATCH %s: integer output %d native %r symbolic %r" % (p.name, k, v, n))
                    break
            if okk:
                res.validated += 1
            break
