#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from the tables in lib/props.py and lib/specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE, NOTES
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
           "thorough_cmd": f"python3 check.py {p['id']} thorough", "technique": p["technique"],
           "level": "exploration", "level_note": p["level_note"]} for p in PROPS if p["id"] in SPECS]
m = {"version": 1, "setup_cmd": "python3 check.py --prebuild", "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
missing = [p["id"] for p in PROPS if p["id"] not in SPECS and p["id"] not in [n["property"] for n in NOT_APPLICABLE]]
assert not missing, missing
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# The per property part of DESIGN.md, and the table of planted bugs.
import re
D = os.path.join(V, "DESIGN.md")
text = open(D).read()
parts = []
for p in PROPS:
    s = SPECS.get(p["id"])
    if not s:
        continue
    parts.append(f"### {p['id']} {p['title']}\n\n"
                 f"*Decided by* {p['technique']}.\n\n*Workload*: {s['rule']}.\n\n"
                 f"*Observed*: {', '.join(p['anchors']['observe_at'])}. *Quantified over* {p['quantifier']['text']}.\n\n"
                 f"*Bounds*: {p['level_note']} Variants: {', '.join(s.get('variants', ['plain']))}; camera configurations "
                 f"{', '.join(map(str, s['configs']))}.\n\n*Beyond the tests*: {p['why_tests_cant']}\n"
                 + (f"\n*Notes*: {p['notes']}\n" if p.get("notes") else ""))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(res.get(i, [])) or 'none'} |")


def put(text, name, body):
    return re.sub(rf"(<!-- {name}:begin -->\n).*?(<!-- {name}:end -->)", lambda k: k.group(1) + body + "\n" + k.group(2), text, flags=re.S)


text = put(text, "properties", "\n".join(parts))
if os.path.isdir(sd):
    text = put(text, "seeded", "\n".join(rows))
open(D, "w").write(text)
