#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (fixes from known-findings.txt, planted bugs from seeded/ and tools/seedlog.txt)."""
import json, os, re
V = "/verif"
d = open(f"{V}/DESIGN.md").read()
log = {}
if os.path.exists(f"{V}/tools/seedlog.txt"):
    for l in open(f"{V}/tools/seedlog.txt"):
        k, v = l.rstrip("\n").split("\t", 1)
        log[k] = v
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {log.get(s, 'not run')} |")
fix = [re.sub(r"^fixed: property=(\S+) (\S+) ", r"* \1, /repo commit \2: ", l.strip()) for l in open(f"{V}/known-findings.txt") if l.startswith("fixed:")]
def put(tag, text):
    global d
    d = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n{text}\n<!-- /{tag} -->", d, flags=re.S)
put("SEEDS", "\n".join(rows))
put("FIXES", "\n".join(fix))
open(f"{V}/DESIGN.md", "w").write(d)
