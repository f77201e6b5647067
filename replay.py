#!/opt/venv/bin/python
"""replay.py <file>: runs one counterexample on the unmodified source. Exit 1 if the violation shows, 0 if not."""
import importlib
import json
import os
import sys

os.environ.pop("FLEE_TYPE_CHECK", None)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from symx import run  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        v = json.load(f)
    mod = importlib.import_module("harness." + v["prop"].lower())
    known = [k["key"] for k in run.load_known() if k["property"] == v["prop"] and k.get("status") == "open"]
    with run._Quiet():
        fails, _, aborted = run.run_concrete(mod, v["case"], v["model"])
    for f in fails:
        print("FAILED", f["label"], f["msg"])
    new = [f for f in fails if f.get("key") not in known]
    if not fails:
        print("no failure", "(assumption not met)" if aborted else "")
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
