"""C07: the route drawn has probability proportional to its weight, after pruning."""
from .lib import *

BOUNDS = ("up to 4 directly connected destinations (two of them possibly joined by parallel routes, or one behind another) with every vector of location scores in [0,100], "
          "given and symbolic route lengths, no pruning, symbolic thresholds up to 20 (values strictly between 1 and 1.001, which the code treats as 1, excepted)")
OUTSIDE = "more candidates; precomputed routing (no pruning there); floating-point rounding"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for th in (None, "sym", 2.0):
        for k in (1, 2, 3, 4):
            cs.append(dict(k=k, th=th))
        cs.append(dict(k=2, th=th, parallel=True))
        cs.append(dict(k=2, th=th, chain=True))
        cs.append(dict(k=2, th=th, full=True))
    for kind in ("camp", "idpcamp", "town", "conflict_zone", "flood_zone", "forwarding_hub"):
        cs.append(dict(k=3, th="sym", kind=kind, ends=["camp", "town", "conflict_zone"]))
        cs.append(dict(k=3, th=None, kind=kind, ends=["idpcamp", "flood_zone", "forwarding_hub"]))
        cs.append(dict(k=2, th=2.0, kind=kind, ends=[kind], chain=True))
    cs.append(dict(k=0, th=None))
    cs.append(dict(k=0, th=2.0))
    for n in (1, 2, 3, 4):
        cs.append(dict(direct="normalize", n=n))
        for th in (None, "sym", 2.0):
            cs.append(dict(direct="prune", n=n, th=th))
    if T:
        for th in (None, "sym", 2.0):
            cs.append(dict(k=5, th=th))
            cs.append(dict(k=3, th=th, parallel=True))
            cs.append(dict(k=3, th=th, chain=True))
            cs.append(dict(k=3, th=th, full=True))
            cs.append(dict(k=2, th=th, symd=True))
    return cs


def direct(ctx, case):
    """the two steps called on weight lists as they are (routes with the same text appear twice)"""
    w = ctx.world()
    n = case["n"]
    ws = [ctx.real(f"w{i}", 0, 100) for i in range(n)]
    if case["direct"] == "normalize":
        settings(w, {})
        p = list(w.moving.normalizeWeights(list(ws)))
        ctx.check(len(p) == n, "normalize", "changed the number of weights")
        tot, s = 0.0, 0.0
        for x, q in zip(ws, p):
            tot, s = tot + x, s + q
            ctx.check(q >= 0, "negative", "negative probability")
        ctx.check_eq(s, 1.0, "normalize", "probabilities sum to one")
        if tot == 0:
            for q in p:
                ctx.check_eq(q, p[0], "all-zero", "equally likely")
        else:
            for x, q in zip(ws, p):
                ctx.check_eq(q * tot, x, "normalize", "ratio kept")
        return
    th = case["th"]
    if th == "sym":
        th = ctx.real("threshold", 0, 20)
        ctx.assume(bor(th <= 1, th >= 1.001))
    settings(w, {"move_rules": {} if th is None else {"pruning_threshold": th}})
    names = ["X", "Y", "X", "Z"][:n]
    gw, gr = w.moving.pruneRoutes(list(ws), [[x] for x in names])
    heaviest = ws[0]
    for x in ws[1:]:
        heaviest = smax(heaviest, x)
    keep = [(nm, x) for nm, x in zip(names, ws) if th is None or th <= 1 or not (x * th < heaviest)]
    ctx.check([x[0] for x in gr] == [nm for nm, _ in keep], "pruning", f"survivors {gr}, expected {[k for k, _ in keep]}")
    ctx.check(len(gw) == len(gr), "pairing", "weights and routes differ in number")
    if len(gw) == len(keep):
        for g, (nm, x) in zip(gw, keep):
            ctx.check_eq(g, x, "pairing", f"weight of surviving route {nm}")


def harness(ctx, case):
    if case.get("direct"):
        return direct(ctx, case)
    w = ctx.world()
    th = case["th"]
    mv = dict(softening=0.0)
    if th == "sym":
        th = ctx.real("threshold", 0, 20)
        ctx.assume(bor(th <= 1, th >= 1.001))
    if th is not None:
        mv["pruning_threshold"] = th
    if case.get("chain"):
        mv["awareness_level"] = 2
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    A = e.addLocation(name="A", x=0.0, y=0.0, capacity=-1, pop=0, foreign=bool(case.get("kind")), country="Land",
                      **({"location_type": case["kind"]} if case.get("kind") else {"movechance": 1.0}))
    A.movechance = 1.0
    cands = []        # (route as text, weight)
    prevd = {}
    for i in range(case["k"]):
        nm = "BCDEF"[i]
        cap = 10 if case.get("full") and i == 0 else -1
        loc = e.addLocation(name=nm, x=0.0, y=0.0, capacity=cap, pop=0, country="Abroad", foreign=i == 1,
                            **({"location_type": case["ends"][i % len(case["ends"])]} if case.get("ends") else {"movechance": 0.5}))
        s = ctx.real("score" + nm, 0, 100)
        loc.setScore(1, s)
        d = ctx.real("d" + nm, 1, 100) if case.get("symd") else float(2 ** i)
        if case.get("full") and i == 0:
            loc.numAgents = 20
            s = 0.0
        if case.get("chain") and i == 1:
            e.linkUp("B", nm, distance=d)
            cands.append(("B/" + nm, s / (prevd["B"] + d)))
            continue
        e.linkUp("A", nm, distance=d)
        prevd[nm] = d
        cands.append((nm, s / d))
        if case.get("parallel") and i == 0:
            e.linkUp("A", nm, distance=4.0 * d)
            cands.append((nm, s / (4.0 * d)))
    e.addAgent(loc_by_name(e, "A"), {})
    p = e.agents[0]
    if not cands:
        r = w.moving.selectRoute(p, time=0)
        ctx.check(r is None or len(r) == 0, "no-candidate", "a route out of nothing")
        e.evolve()
        ctx.check(p.location.name == "A" and not p.travelling, "no-candidate", "left without a route")
        return
    r = w.moving.selectRoute(p, time=0)
    ctx.check(len(ctx.draws) == 1 and ctx.draws[0]["kind"] in ("choices", "np.choice", "choice"), "one-draw", "not exactly one weighted draw")
    ds = ctx.draws[-1]
    opts = ["/".join(x) if not isinstance(x, str) else x for x in ds["options"]] if not isinstance(ds["options"][0], int) else None
    if opts is None:
        ctx.check("/".join(r) in [c for c, _ in cands], "chosen", "not a candidate")
        return
    pw = ds.get("weights") or [1.0] * len(opts)
    heaviest = cands[0][1]
    for _, x in cands[1:]:
        heaviest = smax(heaviest, x)
    # which candidates survive (the explorer has decided these comparisons on this path or decides them here)
    alive = []
    for c, x in cands:
        if th is None or th <= 1:
            alive.append((c, x))
        elif not (x * th < heaviest):
            alive.append((c, x))
    names = [c for c, _ in alive]
    ctx.check(sorted(opts) == sorted(names), "pruning", f"survivors {opts}, expected {names}")
    ctx.check(len(pw) == len(opts), "pairing", "weights and routes differ in number")
    if sorted(opts) != sorted(names) or len(pw) != len(opts):
        return
    total = alive[0][1] * 0.0
    ptotal = 0.0
    for (c, x), q in zip(alive, pw):
        total = total + x
        ptotal = ptotal + q
        ctx.check(q >= 0, "negative", "negative probability")
    zero = heaviest == 0
    if zero is True or (zero is not False and bool(zero)):
        for q in pw[1:]:
            ctx.check_eq(q, pw[0], "all-zero", "candidates of weight zero must be equally likely")
        ctx.check(pw[0] > 0, "all-zero", "no candidate can be drawn")
    else:
        order = list(opts)
        for c, x in alive:
            same = [i for i, o in enumerate(order) if o == c]
            if len(same) == 1:
                q = pw[same[0]]
                ctx.check_eq(q * total, x * ptotal, "proportional", f"probability of {c}")
        if case.get("parallel"):
            q = 0.0
            x = 0.0
            for i, o in enumerate(order):
                if o == "B":
                    q = q + pw[i]
            for c, y in alive:
                if c == "B":
                    x = x + y
            ctx.check_eq(q * total, x * ptotal, "proportional", "probability of B over both parallel routes")
    ctx.check("/".join(r) in names, "chosen", "drew something that was discarded")
