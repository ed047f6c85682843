#!/usr/bin/env python3
"""Lists every fix: commit of /repo in known_findings.json ("fixed"); the property of each is given here."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [l.rstrip("\n").split("\t") for l in open(os.path.join(ROOT, "tools", "fixed.tsv")) if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
k["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    w = s[4:].strip()
    p = [a for a, b in MAP if b in w]
    if not p:
        print("no property for:", w)
        continue
    k["fixed"].append("fixed: property=%s %s %s" % (p[0], h, w))
json.dump(k, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
open(os.path.join(ROOT, "known_findings.json"), "a").write("\n")
print(len(k["fixed"]))
