"""Writes MANIFEST.json: a check for every property with contracts, a reason for every other one."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASONS = {}
NOTE_FILE = os.path.join(HERE, "tools", "level_notes.json")
notes = json.load(open(NOTE_FILE)) if os.path.exists(NOTE_FILE) else {}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", i.lower() + ".py")):
        src = open(os.path.join(HERE, "contracts", i.lower() + ".py")).read()
        proof = "@contract(" in src
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"./check.py {i} --thorough",
            "technique": "contract-based deductive verification: proof obligations generated from the real Python source "
                         "by pyvc, discharged by z3/cvc5; labelled bounded run-time contracts stand in where noted",
            "level": "proof" if proof else "exploration",
            "level_note": notes.get(i, "Contracts marked 'proof' are discharged for all inputs over mathematical integers "
                                    "and reals; contracts marked 'bounded' are only evaluated on sampled inputs. "
                                    "numpy is trusted through the function contracts in pyvc/symnp.py.")})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "not claimed yet: the contracts for this property are not "
                                                        "written at this commit")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q pyvc contracts check.py >/dev/null 2>&1; "
     "chmod +x check.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
