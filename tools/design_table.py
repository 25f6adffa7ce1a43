"""Refreshes the property table of DESIGN.md from texts_body.py and the evidence files."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; REAL = ""
def prop(id, title, *a, **k): P.append((id, title, a))
exec(open(os.path.join(V, "tools", "texts_body.py")).read())
sys.path.insert(0, V)
from irvc.props import PROPS
out = ["| id | property | drivers | harnesses | obligations | functions | s |", "|---|---|---|---|---|---|---|"]
for i, t, a in P:
    fn = os.path.join(V, "evidence", i + ".json")
    u = ", ".join(sorted(set(x["driver"] for x in PROPS[i]["units"])))
    if os.path.exists(fn):
        e = json.load(open(fn)); c = e["coverage"]
        out.append("| %s | %s | %s | %d | %d | %d | %.0f |" % (i, t, u, len(c["harnesses"]), c["obligations"], c["functions_under_contract_count"], e["wall_s"]))
    else: out.append("| %s | %s | %s | | | | |" % (i, t, u))
d = open(os.path.join(V, "DESIGN.md")).read()
tab = "<!--table-->\n" + "\n".join(out) + "\n<!--/table-->"
d = re.sub(r"<!--table-->.*<!--/table-->", lambda m: tab, d, flags=re.S) if "<!--table-->" in d else d + "\n" + tab + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(d)
