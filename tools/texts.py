"""Source of properties.jsonl and MANIFEST.json:  python3-vt tools/texts.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (VC generation from the real code's LLVM IR, ring/bit-vector normalisers, z3, cvc5)"
REAL = "Machine floats are treated as real numbers. "
BASE = "Every obligation generated from /repo's current source is discharged for all inputs; trusts irvc, clang -O0, z3/cvc5. "
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  state=state, observe=observe, level=level))


exec(open(os.path.join(V, "tools", "texts_body.py")).read())
import sys; sys.path.insert(0, V)
from irvc.props import PROPS
for p in P:
    us = PROPS[p["id"]]["units"]
    if any(u.get("target") == "avr" for u in us) and any(u.get("target") != "avr" for u in us):
        p["note"] += " Discharged on the hosted 64-bit and on the freestanding 16-bit (AVR) instantiation."
NA = []
exec(open(os.path.join(V, "tools", "texts_na.py")).read()) if os.path.exists(os.path.join(V, "tools", "texts_na.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))
        if p["state"]: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
na = [x["property"] for x in NA]
checks = [dict(property=p["id"], quick_cmd="python3-vt -m irvc.check %s --tier quick" % p["id"],
               thorough_cmd="python3-vt -m irvc.check %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
               technique=TECH, level=p["level"], level_note=BASE + p["note"]) for p in P if p["id"] not in na]
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import irvc.check\" && clang++ --version && z3 --version && cvc5 --version | head -1", checks=checks, not_applicable=NA,
               notes="No hooks in /repo: the drivers use its public interface only. See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
