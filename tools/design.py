#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (property sections, table of planted changes)."""
import json, re, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), str(V / "tools")]
from props import PROPERTIES
from properties_table import PROPS
from design_notes import NOTES, SEED_NOTES
out = []
for p in PROPERTIES:
    t = PROPS[p["id"]]
    b = t["bounds"]
    h = ", ".join("`harness/" + x["name"] + ".cpp`" for x in t["harnesses"])
    ev = V / "evidence" / (p["id"] + ".json")
    n = NOTES.get(p["id"], {})
    out += [f"### {p['id']} {p['title']}", "", f"*Property.* {p['statement']}", "",
            f"*Decided by* {p['technique']} ({h}).", "",
            f"*Enumerated (quick).* {b['quick']}.", "", f"*Thorough.* {b['thorough']}.", "",
            f"*Oracle.* {t['oracle']}.", "", f"*Assumes.* {'; '.join(t['assumptions'])}.", "",
            f"*Cost.* {n.get('cost', '?')}.", "",
            f"*Why beyond the tests.* {p['why_tests_cant']} {n.get('why', '')}", ""]
    if n.get("note"):
        out += [n["note"], ""]
seeds = ["| planted change | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    seeds.append(f"| {d.name} | {m['property']} | {m['needs'].replace('|', '/')} | {SEED_NOTES.get(d.name, m['property'])} |")
f = V / "DESIGN.md"
s = f.read_text()
def put(s, name, body):
    a, z = f"<!-- {name} -->", f"<!-- end {name} -->"
    new = a + "\n" + body + "\n" + z
    if a in s:
        return re.sub(re.escape(a) + ".*?" + re.escape(z), lambda _: new, s, flags=re.S)
    return s.replace(f"@@{name}@@", new)
s = put(s, "PROPS", "\n".join(out))
s = put(s, "SEEDS", "\n".join(seeds))
f.write_text(s)
