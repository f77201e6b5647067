"""time every case of a property: cases.py C14 [tier] [substring of the case's json] (limit per case: SECS, default 60)"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.pop("PYTHONPATH", None)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib, json, time  # noqa
import multiprocessing as mp  # noqa
from symx import run  # noqa


def go(a):
    t = time.time()
    r = run._worker(a)
    r["t"] = time.time() - t
    return r


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    mod = importlib.import_module("harness." + prop.lower())
    cs = [c for c in mod.cases(tier) if sub in json.dumps(c, default=str)]
    known = [k["key"] for k in run.load_known() if k["property"] == prop and k.get("status") == "open"]
    opts = dict(known=known, case_seconds=float(os.environ.get("SECS", "60")), max_paths=200000, witness_first=25, witness_every=25)
    with mp.get_context("fork").Pool(8, maxtasksperchild=5) as p:
        rs = list(p.imap_unordered(go, [(prop, c, opts) for c in cs], chunksize=1))
    rs.sort(key=lambda r: -r["t"])
    for r in rs[:int(os.environ.get("TOP", "15"))]:
        s = r["stats"]
        print(f"{r['t']:7.1f}s paths {s.get('paths')} q {s.get('queries')} solver {s.get('solver_time', 0):.1f} {json.dumps(r['case'], default=str)[:200]}",
              (r["errors"] or "") and str(r["errors"])[:100], (r.get("fatal") or "")[-300:], [(v["label"], v["msg"]) for v in r["violations"]],
              [(v["label"], v["msg"], str(v["model"])[:300]) for v in r["unreproduced"]][:2], r.get("undecided", [])[:1], str(r["mismatches"][:1])[:300])
    print("total cpu", round(sum(r["t"] for r in rs), 1), "cases", len(rs))
