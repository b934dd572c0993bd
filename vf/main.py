"""Runs one property's tasks in parallel, prints the verdict, writes the evidence file."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import build, core, real

HERE = build.HERE


def _work(arg):
    i, fn, args, tier = arg
    core.TIER = tier
    real.STATS.__init__()
    real.SINGLE = False
    core._cache.clear()
    core.HISTORY.clear()
    t = time.time()
    res = core.Result()
    try:
        fn(res, tier, *args)
        core.histories(res)
    except build.CompileError as e:
        res.inconclusive.append("harness does not compile: %s" % str(e)[-600:])
    except Exception:
        res.inconclusive.append("internal error in task %r: %s" % (args, traceback.format_exc()[-1500:]))
    res.stats = real.STATS
    res.wall = time.time() - t
    res.task = (fn.__name__,) + tuple(args)
    return res


def load_known():
    """known_findings.txt: 'known: {json}' lines; 'fixed: ...' lines are a record and suppress nothing."""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                out.append(json.loads(l[6:]))
    return out


def matches(k, prop, v):
    if k["property"] != prop:
        return False
    return all(v.get(f) == x for f, x in k["match"].items())


def main(prop, tier):
    t0 = time.time()
    mod = importlib.import_module("checks." + prop)
    deadline = t0 + (720 if tier == "quick" else 6 * 3600)
    tasks = [(i, fn, args, tier) for i, (fn, args) in enumerate(mod.tasks(tier))]
    if not os.path.isdir(os.path.join(HERE, "evidence")):
        os.makedirs(os.path.join(HERE, "evidence"))
    res = core.Result()
    slow = []
    done = 0
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    ctx = multiprocessing.get_context("fork")
    nv = 0
    with ctx.Pool(min(workers, max(1, len(tasks))), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_work, tasks)
        while done < len(tasks):
            try:
                r = it.next(timeout=max(1, deadline - time.time()))
            except multiprocessing.TimeoutError:
                res.inconclusive.append("time limit: %d of %d tasks not finished" % (len(tasks) - done, len(tasks)))
                pool.terminate()
                break
            except StopIteration:
                break
            done += 1
            slow.append((round(r.wall, 1), str(r.task)))
            res.merge(r)
            if len(res.violations) >= 8:
                pool.terminate()
                break
    known = load_known()
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    code = 0
    seen_known = set()
    for v in res.violations:
        v["property"] = prop
        k = next((k for k in known if matches(k, prop, v)), None)
        if k is not None:
            seen_known.add(k["what"])
            continue
        path = os.path.join(rdir, "%s_%d.json" % (prop, nv))
        nv += 1
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s; output %s expected %s observed %s" % (v["problem"], v["why"], v["output_index"], v["expected"],
                                                               str(v["observed"])[:300]))
        code = 1
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    d = mod.describe(tier)
    inc = res.inconclusive
    cov = {
        "states": res.paths, "transitions": res.instrs, "traces_validated_against_impl": res.validated,
        "samples": res.samples[:8] or [{"note": "no symbolic sample"}],
        "problems": res.problems, "problems_reaching_their_assertion": res.reach,
        "assertions": res.asserted, "assertions_discharged": res.discharged,
        "assertions_syntactically_identical": res.identical,
        "solver_queries": res.stats.queries, "solver_unsat": res.stats.unsat, "solver_sat": res.stats.sat,
        "solver_unknown": res.stats.unknown, "floating_point_queries": res.stats.fp_queries,
        "assertions_discharged_by_an_identical_earlier_query": res.stats.cached,
        "solver_seconds": round(res.stats.time, 2),
        "functions_encoded": len(res.functions), "functions_sample": sorted(res.functions)[:25],
        "inconclusive": len(inc), "inconclusive_sample": inc[:12],
        "bounds": d["bounds"], "tasks": done, "tasks_total": len(tasks), "slowest_tasks": sorted(slow, reverse=True)[:5],
        "meaning": "states = symbolic paths explored, transitions = LLVM IR instructions executed symbolically, "
                   "traces_validated_against_impl = native runs whose outputs equalled the encoding bit by bit",
    }
    cov.update(res.extra)
    ev = {"property": prop, "tier": tier, "seed": core.SEED, "level": "model_checking", "coverage": cov,
          "assumptions": d["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": nv}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d problems, %d paths, %d/%d assertions discharged, %d queries (%.1f s solver), %d inconclusive, %d violations, %.1f s"
          % (prop, tier, res.problems, res.paths, res.discharged, res.asserted, res.stats.queries, res.stats.time, len(inc), nv,
             time.time() - t0))
    for w in inc[:6]:
        print("  INCONCLUSIVE " + w[:600])
    return code


COMMON_ASSUMPTIONS = [
    "clang 18 lowers the header to LLVM IR faithfully (-O1 front-end, only always-inline/sroa/simplifycfg run before execution)",
    "the executor's reading of IR, checked against native runs at concrete points (traces_validated_against_impl)",
    "operator new does not fail below 256 MB",
]
REAL_ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "floating-point operations are read as exact real operations; rounding, overflow and NaN propagation are outside this property",
    "libm functions are their mathematical functions, known to the solver through axioms (sin^2+cos^2=1, cosh^2=1+sinh^2, sqrt(x)^2=x, ...)",
    "double literals that round ln 2, ln 10, pi or a short fraction are read as those numbers",
]
FP_ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "libm functions are uninterpreted: equal arguments give equal results, nothing else is assumed",
    "NaN payloads are not distinguished where an operation produced the NaN",
]
