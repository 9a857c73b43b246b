#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

PY = "/opt/venv/bin/python -B run.py"
out = []
checks = []
na = []
for p in props.PROPS:
    assert len(p["title"]) <= 80, p["title"]
    files = p["files"]
    for f in files:
        assert os.path.exists(os.path.join("/repo", f)), f
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None}})
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "%s check %s --tier quick" % (PY, p["id"]),
        "thorough_cmd": "%s check %s --tier thorough" % (PY, p["id"]),
        "technique": "deterministic simulation with fault injection: seeded "
                     "search over schedules, delays and faults of the real "
                     "code on a simulated kernel; " + p["oracle"],
        "level": "exploration",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"]})
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "%s setup" % PY,
               "hooks": {"guard": "SIMKIT_HOOKS", "enable":
                         "no hooks were needed: the simulator replaces the "
                         "cocotb.simulator module and subclasses the cocotb "
                         "scheduler from outside /repo",
                         "source_commits": []},
               "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
