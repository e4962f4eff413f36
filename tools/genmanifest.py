#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, sys, os, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
class Job:
    def __init__(s, name, src, *a, **k): s.name, s.src, s.k = name, src, k
sys.modules["__main__"].Job = Job
import jobs
P = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
T = "symbolic execution of the real code's LLVM bitcode, all paths within bounds decided by SMT (Z3); counterexamples replayed natively"
N = "Every feasible path within the stated bounds (evidence lists them per job) is explored and each assertion, memory access and division is decided by the solver for all input values. Nothing is claimed beyond the bounds. "
m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": [], "not_applicable": []}
for p in P:
    if jobs.JOBS.get(p):
        a = jobs.ASSUME_PER.get(p, [])
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "model_checking",
                            "level_note": (N + "Assumes/trusts: " + "; ".join(a + jobs.ASSUME))[:1800]})
    else:
        m["not_applicable"].append({"property": p, "reason": jobs.NA.get(p, "no check built yet; not claimed")})
m["notes"] = "See DESIGN.md. known_findings.jsonl lists recorded genuine defects (open) and repaired ones (fixed)."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
