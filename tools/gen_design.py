#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_src.md, properties, manifest texts, KNOWN_FINDINGS.txt and seeded/*/meta.json.
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
d = open("tools/design_src.md").read()
D, EX = {}, ""
exec(open("tools/design_parts.py").read())
m = json.load(open("MANIFEST.json"))
have = {c["property"]: c for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m["not_applicable"]}
ps = "## How each property is decided\n\n"
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    ps += f"### {i} {p['title']}\n\n"
    ps += (D[i].strip() + "\n\n") if i in D else ""
    if i in na: ps += f"Not claimed: {na[i]}\n\n"
d = d.replace("@@PROPS@@\n", ps)
d = d.replace("@@FIXES@@\n", "".join("* " + l[len("fixed: property="):] for l in open("KNOWN_FINDINGS.txt") if l.startswith("fixed:")) + "\n")
d = d.replace("@@EXCL@@\n", EX.strip() + "\n\n")
res = {}
if os.path.exists("tools/seeded_results.json"): res = json.load(open("tools/seeded_results.json"))
s = "| id | property | what it breaks | what it needs | reported by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob("seeded/*/meta.json")):
    b = f.split("/")[1]; j = json.load(open(f))
    s += f"| {b} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {res.get(b, 'not run yet')} |\n"
d = d.replace("@@SEEDS@@\n", NOTE_SEEDS + "\n\n" + s)
open("DESIGN.md", "w").write(d)
