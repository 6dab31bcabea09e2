"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, HERE)
NA = {
    "C24": "The GPU solver needs a CUDA device and scikit-cuda, neither of which exists here: its code is a sequence of "
           "calls into foreign GPU libraries, so a contract proof would rest on assumed contracts for every one of its "
           "statements and no refutation could be replayed.",
    "C25": "A statement about floating-point rounding inside LAPACK: deductive contracts over the Python code treat machine "
           "arithmetic as mathematical reals and cannot express it; the LAPACK code is outside the repository.",
}
try:
    from dv.levels import LEVELS, NOTES
except ImportError:
    LEVELS, NOTES = {}, {}
TECH = "contract-based deductive verification: verification conditions generated from /repo's source on every run, discharged by normal forms and z3; run-time contracts as bounded complement"
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, technique=TECH,
                       level=LEVELS.get(i, "exploration"), level_note=NOTES.get(i, "bounded: executable contracts on the real code")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="See DESIGN.md. No hooks in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
