#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (cases, defects, planted changes)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
import registry
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = ["", "| check | property | quick cases | thorough cases |", "|---|---|---|---|"]
for p in props:
    c = registry.CHECKS[p["id"]]
    out.append("| %s | %s | %d | %d |" % (p["id"], p["title"], c["quick"], c["thorough"]))
out += ["", "## Defects found on the original tree", "",
        "Each was shown by a failing generated case on the real code and repaired by a commit in /repo", "(the list is kept in `known_findings.jsonl`).", ""]
known = []
for l in open(os.path.join(root, "known_findings.jsonl")):
    d = json.loads(l)
    if d["status"] == "fixed":
        out.append("* " + re.sub(r"^fixed: property=", "", d["what"]))
    else:
        known.append(d)
out += ["", "Not repaired, listed as known findings:", ""]
for d in known:
    out.append("* %s: %s" % (d["property"], d["what"]))
out += ["", "## Planted changes", "", "| planted change | property | what it breaks | caught by quick check |", "|---|---|---|---|"]
results = {}
rp = os.path.join(root, "planted.json")
if os.path.exists(rp):
    results = json.load(open(rp))
sd = os.path.join(root, "seeded")
if not os.path.isdir(sd):
    sys.exit("no seeded directory")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "\\|"), results.get(n, "?")))
out.append("")
d = open(os.path.join(root, "DESIGN.md")).read()
a, b = d.index("<!-- tables -->") + len("<!-- tables -->"), d.index("<!-- end tables -->")
open(os.path.join(root, "DESIGN.md"), "w").write(d[:a] + "\n" + "\n".join(out) + "\n" + d[b:])
