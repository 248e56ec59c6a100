"""writes MANIFEST.json: every property that has goals is claimed"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from dv import spec
spec.load_all()
NA = {}
NOTE = ("Contracts on the functions the property depends on; the verification conditions are generated from /repo's current source "
        "on every run by dv/ (weakest-precondition style symbolic execution, loops by inductive invariants, calls into other contracted "
        "functions by their contracts) and discharged by z3/cvc5 for all inputs and sizes. Assumes real arithmetic instead of floating point, "
        "numpy as specified in dv/npshim.py and numba faithful to the Python source; goals the verifier does not decide are evaluated on sampled "
        "inputs against the real code and reported as bounded.")
EXTRA = {}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    pid = json.loads(line)["id"]
    gs = [g for g in spec.GOALS.values() if g.pid == pid]
    if not gs:
        na.append(dict(property=pid, reason=NA.get(pid, "contracts not written yet")))
        continue
    sym = [g for g in gs if g.sym]
    checks.append(dict(property=pid, quick_cmd="python3-vt check.py %s --tier quick" % pid,
                       thorough_cmd="python3-vt check.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="contract-based deductive verification (dv VC generator over /repo's Python source, z3 and cvc5)",
                       level="proof" if sym else "exploration",
                       level_note=NOTE + (" " + EXTRA[pid] if pid in EXTRA else "") +
                       ("" if len(sym) == len(gs) else " Bounded stand-ins: " + ", ".join(sorted(g.name for g in gs if not g.sym)) + ".")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks, not_applicable=na,
               notes="No hooks in /repo; its commits are fix: commits only. See DESIGN.md."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
