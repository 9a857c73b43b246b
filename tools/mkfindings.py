#!/usr/bin/env python3
"""Rewrite the 'fixed' entries of known_findings.json from the list below and
/repo's history (known entries are kept as they are)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(HERE, "known_findings.json")
# property -> fragments of commit subjects
from fixes import FIXES
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                     capture_output=True, text=True).stdout.splitlines()
log = [x.split(" ", 1) for x in log if " fix: " in x]
old = json.load(open(PATH))["entries"]
ents = [e for e in old if e["status"] != "fixed"]
fixed = dict((e["commit"], e) for e in old if e["status"] == "fixed")
seen = set()
for h, s in reversed(log):
    if h in fixed:
        ents.append(fixed[h])
        continue
    for prop, frag, what in FIXES:
        if frag in s:
            ents.append({"status": "fixed", "property": prop, "commit": h,
                         "what": what, "text": "fixed: property=%s %s %s"
                         % (prop, h, what)})
            break
    else:
        print("no entry for", h, s)
with open(PATH, "w") as f:
    json.dump({"entries": ents}, f, indent=1)
    f.write("\n")
print(len(ents), "entries")
