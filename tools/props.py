"""Writes properties.jsonl and MANIFEST.json (run by hand: python3 tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rtastatic.table import PROPERTIES
A = "run_time_assurance/"
BASE, SIM, ASIF, CON, CTRL, ST = A + "rta/base.py", A + "rta/simplex.py", A + "rta/asif.py", A + "constraint.py", A + "controller.py", A + "state.py"
Z = A + "zoo/"
D2, D3, I3, I1, N1, CU, RS = Z + "cwh/docking_2d.py", Z + "cwh/docking_3d.py", Z + "cwh/inspection_3d.py", Z + "cwh/inspection_1v1.py", Z + "integrators/integrator_1d.py", Z + "cwh/utils.py", Z + "cwh/random_sample_testing.py"
UT, SAMP = A + "utils/utils.py", A + "utils/sample_testing.py"
P = []


def p(pid, title, statement, over, text, why, files, mech):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})


IN, HI, CF = "inputs", "histories", "configurations"
exec(open(os.path.join(HERE, "tools", "proplist.py")).read())
NA = []
exec(open(os.path.join(HERE, "tools", "nalist.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks = []
for x in P:
    i = x["id"]
    if i in [n["property"] for n in NA]:
        continue
    if i not in PROPERTIES:
        print("no check for", i)
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "static analysis: whole-program gated value-flow analysis (global value numbering with aliasing and jit-trace effects), " + PROPERTIES[i].get("short", "checked against a reference semantics"),
                   "level": "other",
                   "level_note": "Every path of the current source reachable from the listed public entry points is abstracted to gated symbolic values (nothing is executed, no solver); equality with the rule's required value is decided by normal forms and, where those differ, by random interpretation of the value terms, so 'differ' always comes with a concrete valuation and 'equal' is with overwhelming probability. Trusts the library models, exact arithmetic, and fixed small dimensions per context (1-3 states and controls, 1-4 constraints, 0-6 trajectory steps, 1-3 calls) as representative."})
for k in PROPERTIES:
    assert k in [x["id"] for x in P], k
m = {"version": 1, "setup_cmd": "python3 -c \"import ast\"", "checks": checks, "not_applicable": NA,
     "notes": "Pure standard-library Python analyser in rtastatic/; reference clients in specs/ are analysed, never executed. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
