"""plant.py SPEC...: turns bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo.
A spec is a python file defining ID, P (property), EDITS [(path, old, new)], NEEDS, BREAKS, DEMO (body of the demonstration)."""
import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = tempfile.mkdtemp(prefix="plantrepo_")
shutil.rmtree(REPO)
shutil.copytree("/repo", REPO, symlinks=True)
atexit.register(lambda: shutil.rmtree(REPO, ignore_errors=True))
TEST = """. /opt/vp/env.sh
cd %s; W=$(mktemp -d)
find . -name __pycache__ -type d -not -path './.git/*' -prune -exec rm -rf {} +
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize --randomly-seed=0 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$W/junit.xml" tests flee_benchmark_tests </dev/null
/usr/bin/python3 /opt/vp/results.py %s/plant.json "junit:$W/junit.xml"; rm -rf "$W"
""" % (REPO, REPO)
BASE = "8147e9a"
PRE = '''import os, sys, tempfile, shutil, random, atexit
repo = os.getcwd()
sys.path.insert(0, repo)
tmp = tempfile.mkdtemp(prefix="demo_")
os.chdir(tmp)
atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
sys.stderr = open(os.devnull, "w")
sys.excepthook = lambda t, v, tb: print("FAIL:", t.__name__, v, "line", tb.tb_lineno)
import numpy as np
from flee import flee
from flee.SimulationSettings import SimulationSettings as S


def settings(text=""):
    with open("settings.yml", "w") as f:
        f.write(text or "log_levels:\\n  init: 0\\n")
    S.ReadFromYML("settings.yml")


def ok(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)


settings()
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def main(fn):
    ns = {}
    exec(open(fn).read(), ns)
    d = f"{HERE}/seeded/{ns['ID']}"
    assert not sh(f"git -C {REPO} status --porcelain -uno").stdout.strip(), "repo not clean"
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(PRE + "\n" + ns["DEMO"].strip("\n") + '\nprint("ok")\n')
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=ns["P"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), f, indent=1)
    why = []
    r = sh(["bash", d + "/demo.sh"], cwd=REPO)
    if r.returncode:
        why.append("demo fails on the clean tree: " + r.stdout[-400:] + r.stderr[-600:])
    try:
        for p, old, new in ns["EDITS"]:
            s = open(f"{REPO}/{p}").read()
            old, new = old.strip("\n"), new.strip("\n")
            if s.count(old) != 1:
                why.append(f"old text occurs {s.count(old)} times in {p}: {old[:60]!r}")
                continue
            open(f"{REPO}/{p}", "w").write(s.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        gone = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        for p in {e[0] for e in ns["EDITS"]}:
            base = sh(f"git -C {REPO} show {BASE}:{p}").stdout.split("\n")
            if not any(l in base for l in gone):
                why.append("no changed line is original")
            for l in gone:
                if l not in base and len({e[0] for e in ns["EDITS"]}) == 1:
                    why.append("note: line not in the original: " + l)
        if sh(["/opt/venv/bin/python", "-m", "compileall", "-q", REPO + "/flee"]).returncode:
            why.append("does not build")
        sh(["bash", "-c", TEST])
        miss = stable() - set(json.load(open(REPO + "/plant.json"))["passed"])
        if miss:
            why.append(f"tests fail: {sorted(miss)[:4]}")
        r = sh(["bash", d + "/demo.sh"], cwd=REPO)
        if r.returncode == 0:
            why.append("demo passes with the bug")
        print(ns["ID"], "demo with bug:", r.stdout.strip()[-200:], r.stderr.strip()[-200:])
        if "--check" in sys.argv:
            r = sh([sys.executable, HERE + "/check.py", ns["P"], "quick"], env=dict(os.environ, VERIF_EVIDENCE=REPO + "/ev", VERIF_REPO=REPO))
            print("   check:", "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", r.stdout.strip().split("\n")[-2:][0][:250])
    finally:
        sh(f"git -C {REPO} checkout -- .")
    print("  ", "OK" if not [w for w in why if not w.startswith("note")] else "BAD", why)
    if [w for w in why if not w.startswith("note")]:
        shutil.rmtree(d)


for a in sys.argv[1:]:
    if not a.startswith("--"):
        main(a)
