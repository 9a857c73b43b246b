#!/opt/venv/bin/python
"""Writes DESIGN.md."""
import glob
import json
import os
import re
import sys
import textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import fixes  # noqa: E402
import props  # noqa: E402

known = [e for e in json.load(open(os.path.join(
    VERIF, "known_findings.json")))["entries"]]
seeds = {}
for f in sorted(glob.glob(os.path.join(VERIF, "seeded/*/meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append(
        (os.path.basename(os.path.dirname(f)), m))
reg = open(os.path.join(VERIF, "scenarios/registry.py")).read()
runs = {i: (s, int(n)) for i, s, n in re.findall(
    r'add\("(\w+)", \[([^]]*)\], (\d+)', reg)}


def wrap(s, ind=""):
    return "\n".join(textwrap.wrap(" ".join(s.split()), 78,
                                   subsequent_indent=ind))


kn = [e for e in known if e["status"] == "known"]
out = [open(os.path.join(HERE, "design_head.md")).read() % {
    "known": len(kn), "fixed": len(known) - len(kn),
    "known_list": "\n".join(wrap("* %s: %s" % (e["property"], e["what"]), "  ")
                            for e in kn),
    "seeds": sum(map(len, seeds.values())), "seedprops": len(seeds)}]
for p in props.PROPS:
    if p["na"]:
        continue
    i = p["id"]
    s, n = runs[i]
    out.append("### %s -- %s\n" % (i, p["title"]))
    out.append(wrap("* **Scenario** `%s`, %d runs quick, %d thorough." % (
        s, n, n * 40), "  "))
    out.append(wrap("* **Searched:** %s." % p["text"].rstrip("."), "  "))
    out.append(wrap("* **Oracle:** %s." % p["oracle"].rstrip("."), "  "))
    out.append(wrap("* **Beyond the tests:** %s" % p["why"], "  "))
    note = p["note"][len(props.NOTE):]
    if note:
        out.append(wrap("* **Limits:** %s" % note, "  "))
    k = sum(1 for f in fixes.FIXES if f[0] == i)
    if k:
        out.append("* **Defects found and repaired:** %d." % k)
    for name, m in seeds.get(i, ()):
        out.append(wrap("* **Catches** `%s` (%s; needs %s)." % (
            name, m["what_it_breaks"], m["needs"]), "  "))
    out.append("")
out.append("## 6. Not applicable\n")
for p in props.PROPS:
    if p["na"]:
        out.append(wrap("* %s -- %s: %s" % (p["id"], p["title"], p["na"]),
                        "  "))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
