"""mut.py PROP FILE: runs a check against hand-made mutants of a scratch copy of /repo/flee.
FILE holds blocks 'path\n<<<\nold\n===\nnew\n>>>'. Prints caught/missed per block."""
import os, re, shutil, subprocess, sys, tempfile
prop, fn = sys.argv[1:3]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(fn).read() if fn != "-" else sys.stdin.read()
blocks = re.findall(r"^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>", txt, re.S | re.M)
for i, (path, old, new) in enumerate(blocks):
    d = tempfile.mkdtemp(prefix="mut_")
    shutil.copytree("/repo/flee", d + "/flee")
    p = d + "/" + path
    s = open(p).read()
    if old not in s:
        print(i, "OLD TEXT NOT FOUND", old[:60]); shutil.rmtree(d); continue
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run([sys.executable, here + "/check.py", prop, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d),
                       capture_output=True, text=True)
    out = r.stdout.strip().split("\n")
    v = [l for l in out if l.startswith("violated") or l.startswith("VIOLATION")]
    print(i, "CAUGHT" if r.returncode == 1 else f"missed rc={r.returncode}", "|", new.strip().replace("\n", " ; ")[:70], "|",
          (v[0][:200] if v else " ".join(out[-3:])[-300:]), flush=True)
    shutil.rmtree(d)
