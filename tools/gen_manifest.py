"""Writes MANIFEST.json from the harness modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "harness", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check yet (being built)"})
        continue
    m = importlib.import_module("harness." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python check.py {pid} quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {pid} thorough",
        "technique": "symbolic execution of the real Python source with z3; counterexamples replayed on the unmodified source",
        "level": "model_checking",
        "level_note": "Every path within the bounds is decided by the solver: " + m.BOUNDS + ". Outside: " + m.OUTSIDE
        + ". Assumes: floats as reals, randomness as arbitrary values within the generator's contract"
        + "".join("; " + a for a in getattr(m, "ASSUMPTIONS", [])) + ".",
    })
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. Engine in symx/, one harness per property in harness/. SYMX_STRICT=1 makes unreproduced counterexamples errors."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
