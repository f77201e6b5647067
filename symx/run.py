"""Drives a property's harness: exploration, replay, evidence."""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core, loader
from .core import ConcCtx, PathAbort, PathTimeout, Stats, SymCtx, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
PATH_SECONDS = 40


def _alarm(sig, frame):
    raise PathTimeout("path time limit")


class _Quiet:
    """stderr/stdout of the code under test go nowhere; scratch dir is the cwd"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="symx_")
        self.old = os.getcwd()

    def __enter__(self):
        os.chdir(self.dir)
        return self

    def clean(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def is_code_error(e):
    """did this exception come out of the code under test (or from a contract of a library it called)?"""
    if getattr(e, "code_error", False):
        return True
    tb = e.__traceback__
    root = os.path.join(loader.REPO, "")
    inrepo = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            inrepo = True
        tb = tb.tb_next
    return inrepo


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    root = os.path.join(loader.REPO, "")
    where = [f"{f.filename.replace(root, '')}:{f.lineno}" for f in tb if f.filename.startswith(root)]
    return f"{type(e).__name__}: {str(e)[:200]} at {where[-1] if where else '?'}"


def run_concrete(mod, case, model, seconds=PATH_SECONDS, quiet=None):
    """-> (failures, observations, aborted)"""
    ctx = ConcCtx(case, model)
    prev = core.ENGINE
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    err = sys.stderr
    out = sys.stdout
    dn = open(os.devnull, "w")
    try:
        sys.stderr = sys.stdout = dn
        try:
            mod.harness(ctx, case)
        except PathAbort:
            return ctx.failed, ctx.obs, True
        except PathTimeout:
            ctx.failed.append(dict(label="no-termination", msg="the code did not finish", key=None))
        except (Exception, SystemExit) as e:
            if not is_code_error(e):
                if ctx.failed:
                    return ctx.failed, ctx.obs, False     # the harness stumbled over a failure it had already recorded
                raise
            ctx.failed.append(dict(label="exception:" + type(e).__name__, msg=exc_text(e), key=getattr(mod, "exc_key", lambda *a: None)(case, e)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stderr, sys.stdout = err, out
        dn.close()
        core.ENGINE = prev
    return ctx.failed, ctx.obs, False


def explore(prop, mod, case, opts):
    """explore one case; returns a result dict"""
    stats = Stats()
    res = dict(case=case, complete=True, violations=[], known=[], unreproduced=[], errors=[], samples=[], mismatches=[])
    t_end = time.time() + opts["case_seconds"]
    kf = opts["known"]
    with _Quiet() as q:
        ctx = SymCtx(case, stats)

        def on_violation(v):
            q.clean()
            saved_alarm = signal.getitimer(signal.ITIMER_REAL)[0]
            stats.replays += 1
            fails, _, aborted = run_concrete(mod, case, v["model"], seconds=30)
            q.clean()
            signal.signal(signal.SIGALRM, _alarm)
            if saved_alarm:
                signal.setitimer(signal.ITIMER_REAL, max(5.0, saved_alarm))
            if not fails:
                return False
            new = [f for f in fails if f.get("key") not in kf]
            for f in fails:
                if f.get("key") in kf:
                    if f["key"] not in res["known"]:
                        res["known"].append(f["key"])
            if new:
                res["violations"].append(dict(prop=prop, case=case, model=v["model"], label=new[0]["label"], msg=new[0]["msg"],
                                              sym_label=v["label"]))
                return True
            # the concrete run shows only the known finding; fine if that is what the solver reported too
            return v.get("key") in kf

        ctx.on_violation = on_violation
        err, out = sys.stderr, sys.stdout
        dn = open(os.devnull, "w")
        more = True
        try:
            while more:
                ctx.start_path()
                q.clean()
                ok = False
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
                try:
                    sys.stderr = sys.stdout = dn
                    mod.harness(ctx, case)
                    ok = True
                except PathAbort:
                    stats.infeasible += 1
                except PathTimeout as e:
                    if not _report(ctx, on_violation, "no-termination", str(e)):
                        ctx.undecided.append("path time limit: " + str(e))
                        stats.undecided += 1
                except Unsupported as e:
                    ctx.undecided.append("not representable: " + str(e)[:300])
                    stats.undecided += 1
                except (Exception, SystemExit) as e:
                    key = getattr(mod, "exc_key", lambda *a: None)(case, e)
                    if not is_code_error(e) and not isinstance(e, SystemExit):
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        sys.stderr, sys.stdout = err, out
                        if res["violations"]:
                            break
                        raise
                    if not _report(ctx, on_violation, "exception:" + type(e).__name__, exc_text(e), key):
                        ctx.undecided.append("exception only in the symbolic run: " + exc_text(e))
                        stats.undecided += 1
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    sys.stderr, sys.stdout = err, out
                if ok:
                    stats.paths += 1
                    n = stats.paths
                    if ctx.model is not None and (n <= opts["witness_first"] or n % opts["witness_every"] == 0) \
                            and not getattr(mod, "NO_WITNESS", False):
                        model = ctx.model_values()
                        sobs = [(k, ctx.eval_obs(v)) for k, v in ctx.obs]
                        q.clean()
                        stats.replays += 1
                        fails, cobs, aborted = run_concrete(mod, case, model)
                        core.ENGINE = ctx
                        bad = None
                        unk = [f for f in fails if f.get("key") not in kf]
                        if aborted:
                            bad = "witness violates an assumption in the real run"
                        elif unk and not res["violations"]:
                            bad = "witness fails in the real run: " + json.dumps(unk[0], default=str)[:300]
                        else:
                            bad = _cmp_obs(sobs, cobs)
                        if bad:
                            stats.mismatch += 1
                            if len(res["mismatches"]) < 5:
                                res["mismatches"].append(dict(why=bad, model=model))
                        if len(res["samples"]) < 2:
                            res["samples"].append(dict(case=case, input={k: _show(v) for k, v in list(model.items())[:24]}))
                if res["violations"]:
                    res["complete"] = False
                    break
                more = ctx.next_path()
                if more and (time.time() > t_end or stats.paths >= opts["max_paths"]):
                    res["complete"] = False
                    res["errors"].append("path or time budget reached after %d paths" % stats.paths)
                    break
        finally:
            dn.close()
        res["unreproduced"] = [dict(label=v["label"], msg=v["msg"], model=v["model"]) for v in ctx.violations][:5]
        res["undecided"] = ctx.undecided[:5]
    res["stats"] = stats.d()
    res["functions"] = [[f, q_, l, sorted(lines)] for (f, q_, l), lines in loader.FUNCTIONS.items()]
    return res


def _show(v):
    if isinstance(v, (list, tuple)):
        return v[0] / v[1] if v[1] != 1 else v[0]
    return v


def _cmp_obs(a, b):
    if len(a) != len(b):
        return "number of observations differs"
    for (na, va), (nb, vb) in zip(a, b):
        if na != nb:
            return f"observation {na} vs {nb}"
        if isinstance(va, (list, tuple)) and len(va) == 2 and all(isinstance(x, int) for x in va) and not isinstance(vb, (list, tuple)):
            va = va[0] / va[1]
        if va is None:
            continue
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
            if not core.num_close(va, vb, 1e-5):
                return f"observation {na}: {va} vs {vb}"
        elif isinstance(va, bool) or isinstance(vb, bool):
            if bool(va) != bool(vb):
                return f"observation {na}: {va} vs {vb}"
        elif va != vb:
            return f"observation {na}: {va!r} vs {vb!r}"
    return None


def _report(ctx, on_violation, label, msg, key=None):
    signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS / 2)
    try:
        return _report_(ctx, on_violation, label, msg, key)
    except PathTimeout:
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _report_(ctx, on_violation, label, msg, key=None):
    try:
        if ctx.model is None:
            r = ctx._check()
            if r != core.z3.sat:
                return r == core.z3.unsat
            ctx._set_model(r)
        vals = ctx.model_values()
    except core.z3.Z3Exception:
        return False
    k = (label, key)
    n = ctx.seen_labels.get(k, 0)
    ctx.seen_labels[k] = n + 1
    if n >= 12:
        return key is not None
    v = dict(label=label, msg=msg, key=key, model=vals)
    if on_violation(v):
        return True
    for mode in ("dyadic", "box"):
        alt = ctx._nice_model(None, mode)
        if alt is not None and on_violation(dict(v, model=alt)):
            return True
    return False


# ------------------------------------------------------------------------------------------------


def _worker(args):
    prop, case, opts = args
    try:
        loader.FUNCTIONS.clear()
        loader.start_monitoring()
        if loader._TOOL is not None:
            sys.monitoring.restart_events()
        mod = importlib.import_module("harness." + prop.lower())
        return explore(prop, mod, case, opts)
    except BaseException as e:  # noqa: an engine failure, reported as such
        return dict(case=case, fatal=traceback.format_exc(), complete=False, violations=[], known=[], unreproduced=[],
                    errors=["fatal"], samples=[], mismatches=[], undecided=[], stats=Stats().d(), functions=[])


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ.pop("FLEE_TYPE_CHECK", None)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("harness." + prop.lower())
    cases = mod.cases(tier)
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
    quick = tier != "thorough"
    budget = 700 if quick else getattr(mod, "THOROUGH_SECONDS", 3300)
    opts = dict(known=[k["key"] for k in known], case_seconds=600 if quick else 2400, max_paths=200000,
                witness_first=25 if quick else 100, witness_every=25 if quick else 10)
    nproc = min(len(cases), int(os.environ.get("SYMX_PROCS", str(os.cpu_count() or 4))))
    results = []
    stop = False
    jobs = [(prop, c, opts) for c in cases]
    if nproc <= 1 or os.environ.get("SYMX_INLINE"):
        for j in jobs:
            r = _worker(j)
            results.append(r)
            if r["violations"]:
                break
    else:
        ctxm = mp.get_context("fork")
        pool = ctxm.Pool(nproc, maxtasksperchild=20)
        try:
            it = pool.imap_unordered(_worker, jobs, chunksize=1)
            for _ in range(len(jobs)):
                left = budget - (time.time() - t0)
                try:
                    r = it.next(timeout=max(1.0, left))
                except mp.TimeoutError:
                    stop = True
                    break
                results.append(r)
                if r["violations"]:
                    break
        finally:
            pool.terminate()
            pool.join()
    return finish(prop, tier, seed, mod, cases, results, known, t0, stop)


def finish(prop, tier, seed, mod, cases, results, known, t0, timed_out):
    stats = Stats()
    fns = {}
    for r in results:
        stats.add(r["stats"])
        for f, q, l, lines in r["functions"]:
            fns.setdefault((f, q, l), set()).update(lines)
    fatal = [r["fatal"] for r in results if r.get("fatal")]
    viol = None
    for r in results:
        for v in r["violations"]:
            path = write_replay(prop, v)
            rc = subprocess.run([sys.executable, os.path.join(VERIF, "replay.py"), path], stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, timeout=240).returncode
            if rc == 1:
                viol = (path, v)
                break
            print(f"note: a counterexample was not confirmed in a fresh process: {path} (rc {rc})")
        if viol:
            break
    found_known = []
    for r in results:
        for k in r["known"]:
            if k not in found_known:
                found_known.append(k)
    for k in known:
        if k["key"] in found_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    incomplete = [e for r in results for e in r["errors"]] + (["time budget of the check reached"] if timed_out else [])
    undecided = [f"{u} case {json.dumps(r.get('case'))}" for r in results for u in r.get("undecided", [])]
    unrep = [u for r in results for u in r["unreproduced"]]
    mism = [m for r in results for m in r["mismatches"]]
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=stats.paths, transitions=stats.decisions, traces_validated_against_impl=stats.replays,
            samples=[s for r in results for s in r["samples"]][:8],
            cases=len(cases), cases_finished=len(results),
            exhaustive_within_bounds=not incomplete and not undecided and not unrep and not viol,
            bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
            queries=stats.queries, solver_seconds=round(stats.solver_time, 2), assertions_checked=stats.checks,
            assertions_closed_by_rewriting=stats.trivial, infeasible_paths=stats.infeasible,
            solver_unknown=stats.unknown, undecided=undecided[:10], incomplete=incomplete[:10],
            witness_mismatches=stats.mismatch, mismatch_examples=mism[:3],
            functions_encoded=sorted("%s:%s (%d lines executed)" % (f, q, len(l)) for (f, q, _), l in fns.items() if q != "<module>"),
        ),
        assumptions=["floats are modelled as real numbers", "randomness is an arbitrary value within the generator's contract"]
        + list(getattr(mod, "ASSUMPTIONS", [])),
        violations=[dict(replay=viol[0], label=viol[1]["label"], message=viol[1]["msg"])] if viol else [],
        wall_s=round(wall, 2),
        known_findings=[k for k in found_known],
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] cases {len(results)}/{len(cases)} paths {stats.paths} queries {stats.queries} "
          f"checks {stats.checks} solver {stats.solver_time:.1f}s replays {stats.replays} mismatches {stats.mismatch} "
          f"wall {wall:.1f}s")
    for e in incomplete[:3]:
        print("incomplete:", e)
    for u in undecided[:5]:
        print("undecided:", u)
    for m in mism[:2]:
        print("mismatch:", str(m)[:600])
    if viol:
        print("violated:", viol[1]["label"], viol[1]["msg"], "case", json.dumps(viol[1]["case"], default=str)[:300])
        print(f"VIOLATION property={prop} replay={viol[0]}")
        return 1
    if fatal:
        print(fatal[0])
        print("ERROR: the check itself failed")
        return 2
    if unrep:
        for u in unrep[:3]:
            print("unreproduced counterexample:", u["label"], u["msg"], str(u["model"])[:800])
        if os.environ.get("SYMX_STRICT"):
            return 2
    if stats.paths == 0:
        print("ERROR: no path was explored")
        return 2
    return 0


def write_replay(prop, v):
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    h = hashlib.sha1(json.dumps([v["case"], v["model"]], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(EVIDENCE, "replay", f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(v, f, indent=1, default=str)
    return path
