"""writes MANIFEST.json from checks/registry.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks.registry as reg

SE = "symbolic execution of the real source + z3 (unsat of the negated property)"
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("Bounded symbolic verification: the repository's functions are executed from source on symbolic values, each obligation is decided by z3 "
        "for all values within the bounds written to the evidence file; counterexamples are replayed on the real code before they are reported.")
checks = []
for i in ids:
    if i in reg.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3-vt run.py {i} quick",
            "thorough_cmd": f"python3-vt run.py {i} thorough",
            "technique": reg.TECH.get(i, SE),
            "level": "other",
            "level_note": NOTE,
        })
na = [{"property": i, "reason": reg.NA.get(i, "check under construction")} for i in ids if i not in reg.CHECKS]
m = {"version": 1, "setup_cmd": "python3-vt -B -c \"import z3, numpy, scipy\"", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks execute /repo/rkstiff from source on every run. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
