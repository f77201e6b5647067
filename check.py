#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]   -- see DESIGN.md"""
import os
import sys

os.environ.pop("FLEE_TYPE_CHECK", None)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "PYTHONPATH" in os.environ or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.pop("PYTHONPATH", None)
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.path.insert(0, HERE)
sys.path.append(VT)

from symx import run  # noqa: E402

if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run.main(sys.argv[1], tier))
