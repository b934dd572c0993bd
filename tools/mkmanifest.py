"""Writes MANIFEST.json: one check per property that has checks/<id>.py, the rest under not_applicable."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
REAL = "symbolic execution of LLVM IR of the real header + z3 (nonlinear real arithmetic)"
FP = "symbolic execution of LLVM IR of the real header + z3 (IEEE floating point, libm uninterpreted)"
NOTE_REAL = ("Every path of the compiled-to-IR code is executed symbolically; outputs are compared with independently written formulas, "
             "for all real values, at the listed sizes. Arithmetic read as exact reals; libm known by axioms. "
             "Counterexamples are replayed natively before they are reported.")
NOTE_FP = ("Every path of the compiled-to-IR code is executed symbolically; outputs compared bit for bit for all doubles, at the listed sizes; "
           "libm functions uninterpreted. Counterexamples are replayed natively before they are reported.")
T = {"C11": (FP, NOTE_FP), "C16": (FP, NOTE_FP), "C08": (FP, NOTE_FP), "C20": (FP, NOTE_FP)}
try:
    import sys
    sys.path.insert(0, H)
    from tools.notes import NOTES
    T.update(NOTES)
except ImportError:
    pass
BIND = ("symbolic execution of LLVM IR of the real binding sources (pybind11 replaced by a symbolic stand-in) + z3 (IEEE floating point)",
        "The module set-up is executed from python/src; calls are dispatched by a stand-in for pybind11 on symbolic Python arguments; outputs "
        "compared bit for bit with independently written oracles for all doubles, at the listed classes. Counterexamples are replayed natively.")
T.update({"C14": BIND, "C15": BIND, "C20": BIND, "C21": (BIND[0] + "; the evaluated Python expressions are run on symbolic numbers by CPython/numpy",
                                                         BIND[1])})
T["C22"] = ("symbolic execution of LLVM IR of the real header + z3: reachability of unordered writes to shared storage, equality of results after other calls",
            "Every store on every feasible path is checked against the set of objects other calls or threads can reach; where a call touches "
            "static state it is executed again after other calls and compared for all real values. Bounds: listed sizes, sequences of two calls. "
            "Races are replayed under ThreadSanitizer, histories natively.")
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "checks", i + ".py")):
        t, n = T.get(i, (REAL, NOTE_REAL))
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3, sys; sys.exit(0)'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
