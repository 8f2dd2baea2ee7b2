"""Append an entry for a repaired defect: addfixed.py PROPERTY COMMIT WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
prop, commit, what = sys.argv[1:4]
with open(p, "a") as f:
    f.write(json.dumps({"property": prop, "status": "fixed", "commit": commit,
                        "what": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")
