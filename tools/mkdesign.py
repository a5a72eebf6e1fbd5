#!/usr/bin/env python3
"""Replaces the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |".replace("\n", " "))
p = os.path.join(V, "DESIGN.md"); t = open(p).read()
B, E = "<!-- seeds -->", "<!-- /seeds -->"
t = t.replace("SEEDTABLE", B + "\n" + E)
t = re.sub(re.escape(B) + ".*?" + re.escape(E), lambda m: B + "\n" + "\n".join(rows) + "\n" + E, t, flags=re.S)
open(p, "w").write(t)
