#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md, and the generated parts of section 3.
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V)
from harness import engine
NOTES = json.load(open(os.path.join(V, "tools/seeded_notes.json")))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s: %s | %s quick | %s |" % (d, m["what_it_breaks"], m["property"], NOTES.get(d, "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(\|---\|---\|---\|\n)(?:\|.*\n|@@SEEDED@@\n)+", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
for l in open(os.path.join(V, "properties.jsonl")):
    q = json.loads(l)
    pr = engine.load_prop(q["id"])
    s = re.sub(r"(### %s .*\n\n)\* Generated: .*\n" % q["id"], lambda m: m.group(1) + "* Generated: %s.\n" % pr.rule, s)
    s = re.sub(r"(### %s (?:.*\n){2,8}?\* Bounds: )\d+ cases quick, \d+ thorough" % q["id"],
               lambda m: m.group(1) + "%d cases quick, %d thorough" % (pr.quick, pr.thorough), s)
open(p, "w").write(s)
