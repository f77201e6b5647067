"""C05: the candidate routes of a person are exactly the loop-free routes within awareness."""
import itertools

from .lib import *

BOUNDS = ("every network on 3 and 4 locations (any subset of links; any subset of the other locations being markers; any subset of the link "
          "directions closed on 3 locations, one of several closures on 4), awareness 0-3; a reopened network; "
          "5 locations with one link at the start (markers) or two (no markers); chains of 7 locations with any markers and two possible shortcuts; thorough: every 5-location network with any markers, any closures on 4")
OUTSIDE = "more locations; parallel routes between the same two places; precomputed routing (C18)"

KINDS = [None, "camp", "conflict_zone", "town", "idpcamp", "flood_zone", "forwarding_hub"]
N = ["A", "B", "C", "D", "E", "F", "G"]


def cases(tier):
    cs = []
    for aw in (0, 1, 2, 3):
        cs.append(dict(n=3, aw=aw, fixed=[], close="all", markers=True))
        for m in itertools.product((0, 1), repeat=3):
            # the case fixes the links of the start, the explorer chooses the rest
            cs.append(dict(n=4, aw=aw, fixed=m, close="none", markers=True))
    for aw in (1, 2, 3):
        for m in itertools.product((0, 1), repeat=3):
            if sum(m) >= 1:
                cs.append(dict(n=4, aw=aw, fixed=m, close="one", markers=False))
    cs.append(dict(n=4, aw=2, fixed=(1, 1, 0), close="reopen", markers=False))
    cs.append(dict(n=4, aw=3, fixed=(1, 0, 1), close="reopen", markers=True))
    T = tier == "thorough"
    for aw in (1, 2, 3, 4, 5) if T else (2, 3, 4):
        for m in itertools.product((0, 1), repeat=4):
            if sum(m) == 1 or T and sum(m) >= 1:
                cs.append(dict(n=5, aw=aw, fixed=m, close="none", markers=True))
            elif sum(m) == 2:
                cs.append(dict(n=5, aw=aw, fixed=m, close="none", markers=False))
    for aw in range(1, 7):
        cs.append(dict(n=7, aw=aw, fixed=[], close="none", markers=True, chain=[[0, 3], [2, 5]]))
    if T:
        for aw in (1, 2, 3):
            for m in itertools.product((0, 1), repeat=3):
                cs.append(dict(n=4, aw=aw, fixed=m, close="all", markers=False))
    return cs


def expected(adj, markers, start, aw):
    out = []

    def go(path, used):
        for nx in adj[path[-1]]:
            if nx in path:
                continue
            u = used + (0 if nx in markers else 1)
            if u > aw:
                continue
            if nx not in markers:
                out.append(path + [nx])
            go(path + [nx], u)

    go([start], 0)
    return out


def harness(ctx, case):
    w = ctx.world()
    aw = case["aw"]
    settings(w, {"move_rules": {"awareness_level": aw}})
    e = w.flee.Ecosystem()
    n = case["n"]
    names = N[:n]
    markers = set()
    for i, nm in enumerate(names):
        mk = bool(i and case["markers"] and ctx.flag("marker" + nm))
        if mk:
            markers.add(nm)
        kind = "marker" if mk else KINDS[(i + case["aw"] + sum(case["fixed"])) % len(KINDS)]
        e.addLocation(name=nm, x=0.0, y=0.0, location_type=kind, movechance=0.5, capacity=-1, pop=0)
    adj = {nm: [] for nm in names}
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            if case.get("chain"):
                there = j == i + 1 or ([i, j] in case["chain"] and ctx.flag(f"link{names[i]}{names[j]}"))
            elif i == 0 and case["fixed"]:
                there = bool(case["fixed"][j - 1])
            elif case.get("ring") and (i + j) % 3 == 0:
                there = False
            else:
                there = ctx.flag(f"link{names[i]}{names[j]}")
            if there:
                # a redirection further along the way concerns those who stand there, not those who plan
                e.linkUp(names[i], names[j], distance=10.0 + 3 * k)
                if i > 0 and (k + n + aw) % 2:
                    link_between(e, names[i], names[j]).forced_redirection = True
                k += 1
                adj[names[i]].append(names[j])
                adj[names[j]].append(names[i])
    closed = []
    pairs = [(a, b) for a in names for b in adj[a]]
    if case["close"] == "all":
        closed = [p for p in pairs if ctx.flag("closed" + p[0] + p[1])]
    elif case["close"] in ("one", "reopen") and pairs:
        p = ctx.choice("closing", pairs)
        closed = [p]
        if case["close"] == "one" and ctx.flag("both"):
            closed.append((p[1], p[0]))
    for a, b in closed:
        e.close_link(a, b, twoway=False)
    if case["close"] == "reopen":
        for a, b in closed:
            e.reopen_link(a, b, twoway=False)
        closed = []
    for a, b in closed:
        adj[a].remove(b)
    e.addAgent(loc_by_name(e, "A"), {})
    p = e.agents[0]
    vague(ctx, e, locs=n < 5)
    for loc in e.locations if n < 5 else []:
        loc.capacity = -1
        loc.numAgents = ctx.int(loc.name + ".people", 0, 5000)
        for l in loc.links:
            l.numAgents = ctx.int(l.name + ".people", 0, 5000)
    if aw == 0:
        m = len(ctx.draws)
        r = w.moving.selectRoute(p, time=0)
        if not adj["A"]:
            ctx.check(r is None or len(r) == 0, "awareness0", "a route although there is no open link")
            return
        ctx.check(len(r) == 1 and r[0] in adj["A"], "awareness0", f"took {r}, direct links {adj['A']}")
        ds = ctx.draws[m:]
        ctx.check(len(adj["A"]) == 1 or len(ds) == 1, "awareness0", "not one random choice among the direct links")
        for dd in ds:
            if dd["kind"] == "randint":
                size = dd["hi"] - dd["lo"]
            elif dd["kind"] in ("choice", "choices", "np.choice"):
                size = len(dd["options"])
                ctx.check(dd.get("weights") is None or len({str(x) for x in dd["weights"]}) == 1, "awareness0", "not equally likely")
            else:
                continue
            ctx.check(size == len(adj["A"]), "awareness0", "not every direct link can be taken")
        return
    exp = sorted("/".join(x) for x in expected(adj, markers, "A", aw))
    wts, rts = w.moving.selectRoute(p, time=0, return_all_routes=True)
    ctx.check(len(wts) == len(rts), "pairing", "weights and routes differ in number")
    got = sorted("/".join(x if x[:1] == ["A"] else ["A"] + list(x)) for x in rts)
    missing = [x for x in exp if x not in got]
    extra = [x for x in got if x not in exp]
    ctx.check(not missing, "missing", f"routes not offered: {missing}")
    ctx.check(not extra, "extra", f"routes that must not be offered: {extra}")
    ctx.check(got == exp, "twice", f"routes offered more than once: {got}")
    ctx.observe("routes", "|".join(got))
    r = w.moving.selectRoute(p, time=0)
    if not exp:
        ctx.check(r is None or len(r) == 0, "none", "a route out of nothing")
        return
    ctx.check("A/" + "/".join(r) in exp, "chosen", f"chose {r}")
