#!/opt/venv/bin/python
"""run.py check <ID> [--tier quick|thorough] | replay <file> | list
   run.py det <ID> [n]   -- determinism self-check: digest of n runs"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") is None or \
        os.environ.get("PYTHONDONTWRITEBYTECODE") is None or \
        not sys.executable.startswith("/opt/venv"):
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from simkit import cli      # noqa: E402

if __name__ == "__main__":
    sys.exit(cli.main(sys.argv[1:]))
