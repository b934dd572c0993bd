"""Race decider (mode 'race'): on no feasible path does a call write to storage that another thread may use - static objects (unless
thread-local, atomic, locked or inside the guarded initialisation of a static) and operands shared with other threads."""
import os
import random
import subprocess

import z3

from . import build, core, dd, fp, real, terms


MISSED = {}     # unordered writes -> replays that did not show them, in this process


def shared(p):
    """p with its operands shared between threads"""
    import copy
    q = copy.copy(p)
    q.defs = p.defs + ["HJ_SHARED"]
    q.share = True
    q.mode = "race"
    q.name = p.name + ", operands shared by several threads"
    q.expect, q.iexpect = {}, {}
    q.leaks = False
    q.nin = max(p.nin, 3 * (40 if p.src == "ss_num.cpp" else dd.STRIDE) + 1)
    q.ins = {**{k: terms.fconst(0.5) for k in range(q.nin)}, **p.ins}
    return q


def threads(p, env, timeout=120):
    """Runs the call in three threads under ThreadSanitizer; the report's first lines, or None."""
    try:
        exe = build.native(p.src, p.defs + p.native_defs, list(p.extra) + ["-pthread"], "tsan", driver="driver_threads.cpp")
    except build.CompileError as e:
        return None
    f = core.input_file(p, env)
    try:
        r = subprocess.run([exe, p.native_fn or p.fn, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1:report_bugs=1"))
        e = r.stderr.decode("latin1")
        if "FATAL: ThreadSanitizer" in e:
            exe = build.native(p.src, p.defs + p.native_defs, list(p.extra) + ["-pthread"], "O0", driver="driver_threads.cpp")
            r = subprocess.run(["valgrind", "--tool=helgrind", "-q", exe, p.native_fn or p.fn, f], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            e = r.stderr.decode("latin1")
            return e[:600] if "Possible data race" in e else None
        return e[:600] if "data race" in e else None
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.unlink(f)


def decide_path(p, path, res, names):
    res.asserted += 1
    if path.outcome in ("unsupported", "budget"):
        return False
    if not path.races:
        res.discharged += 1
        return True
    conds = [(d, True) for d in p.domain] + list(path.conds)
    ctx = fp.Ctx()
    env = {n: 0.75 for n in names}
    try:
        zc = [ctx.cond(c) if v else z3.Not(ctx.cond(c)) for c, v in conds]
        real.STATS.fp_queries += 1
        r, m = real.check(zc, 20000)
        if r == "unsat":
            res.discharged += 1
            return False
        if r == "sat":
            env = {n: (fp.model_val(m, ctx.vars[n]) if n in ctx.vars else 0.75) for n in names}
    except fp.NotFp:
        pass
    what = "; ".join("unordered write to %s in %s" % (k, f) for k, f in sorted(path.races.items()))
    key = (p.src, tuple(p.defs), what)
    if MISSED.get(key, 0) >= 2 or sum(MISSED.values()) >= 12:       # replaying costs seconds
        res.inconclusive.append("%s: %s (as before, not reproduced natively)" % (p.name, what))
        return True
    sorts = {n: v.sort for n, v in terms.variables(p.terms()).items()}
    n = 0
    for e in fp.points(names, env, random.Random(core.SEED), sorts):
        if not fp.conds_ok(conds, e):
            continue
        n += 1
        t = threads(p, e)
        if t:
            core.violation(res, p, e, -1, "no write to shared storage", t, what)
            return True
        if n >= 2:
            break
    MISSED[key] = MISSED.get(key, 0) + 1
    res.inconclusive.append("%s: %s (not reproduced natively)" % (p.name, what))
    return True
