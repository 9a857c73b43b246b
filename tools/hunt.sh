#!/bin/bash
# hunt.sh ID : apply seeded/ID to /repo's working tree, run its property's quick check, undo
ID=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
/opt/venv/bin/python -B /verif/run.py check $P --tier quick 2>&1 | tail -3 | cut -c1-220
git -C /repo checkout -q -- .
