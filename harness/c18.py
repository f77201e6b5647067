"""C18: precomputed routes are valid and the best within awareness."""
from .lib import *

BOUNDS = ("every location of 9 networks of 2-5 places (line, fork, triangle, square with and without diagonals, complete, a pair of parallel roads, markers in between, closed roads), awareness 1-3 (4 in the thorough run), "
          "every length of the roads and every attractiveness of the places, distance power 1 and 2, weight power 1 and 2, softening; flood levels; the choice a person makes from the table; tables after roads close and reopen; major routes of 2 and 3 steps")
OUTSIDE = ("whether the attractiveness of other places used on the day it changes is the new or the old one (the sequential code updates place by place); major routes over closed roads (the program stops: they are documented as impossible to close); "
           "which of several routes of equal weight is kept")

NETS = {
    "pair": [("alpha", "beta")],
    "twin": [("alpha", "beta"), ("alpha", "beta"), ("beta", "gamma")],
    "line": [("alpha", "beta"), ("beta", "gamma"), ("gamma", "delta")],
    "fork": [("alpha", "beta"), ("alpha", "gamma"), ("beta", "delta"), ("gamma", "delta")],
    "triangle": [("alpha", "beta"), ("beta", "gamma"), ("alpha", "gamma")],
    "kite": [("alpha", "beta"), ("beta", "gamma"), ("alpha", "gamma"), ("gamma", "delta"), ("beta", "delta")],
    "full": [("alpha", "beta"), ("beta", "gamma"), ("alpha", "gamma"), ("gamma", "delta"), ("beta", "delta"), ("alpha", "delta")],
    "star": [("alpha", "beta"), ("beta", "gamma"), ("beta", "delta")],
    "tail": [("alpha", "beta"), ("alpha", "gamma"), ("beta", "delta"), ("gamma", "delta"), ("delta", "deltaB")],
}


def cases(tier):
    T = tier == "thorough"
    cs = []
    for net, edges in NETS.items():
        names = sorted({x for e in edges for x in e})
        for aw in (1, 2, 3) if not T else (1, 2, 3, 4):
            if net == "pair" and aw > 1:
                continue
            for start in names if T or net in ("fork", "kite", "tail", "star", "twin") else names[:2]:
                cs.append(dict(t="table", net=net, aw=aw, start=start, markers=[], sym="length", dp=1.0, wp=1.0))
            cs.append(dict(t="table", net=net, aw=aw, start=names[0], markers=[], sym="score", dp=1.0, wp=1.0))
            for m in (["beta"], ["beta", "gamma"], ["delta"]):
                if set(m) <= set(names) and len(names) > len(m) + 1:
                    cs.append(dict(t="table", net=net, aw=aw, start="alpha", markers=m, sym="length", dp=1.0, wp=1.0))
        if net in ("kite", "fork", "tail"):
            for dp, wp in ((2.0, 1.0), (1.0, 2.0)):
                cs.append(dict(t="table", net=net, aw=2, start="alpha", markers=[], sym="length", dp=dp, wp=wp))
    for net in ("fork", "kite", "full", "twin"):
        for aw in (1, 2, 3):
            cs.append(dict(t="use", net=net, aw=aw))
    for net in ("line", "tail", "star"):
        cs.append(dict(t="use", net=net, aw=3, child=True))
    for net in ("fork", "kite", "triangle", "tail"):
        for aw in (1, 2, 3):
            cs.append(dict(t="days", net=net, aw=aw))
    for net in ("tail", "line"):
        for where in ("start", "next"):
            cs.append(dict(t="major", net=net, where=where, aw=1))
    cs.append(dict(t="two_major", aw=1))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def conf(w, case, **kw):
    settings(w, {"move_rules": dict(dict(max_move_speed=100, max_walk_speed=100, awareness_level=case["aw"], camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.5, conflict_movechance=1.0, capacity_buffer=1.0,
                                         fixed_routes=True, distance_power=case.get("dp", 1.0), weight_power=case.get("wp", 1.0)), **kw)})


def build(ctx, w, case, lengths, markers=()):
    e = w.flee.Ecosystem()
    edges = NETS[case["net"]]
    for n in sorted({x for ed in edges for x in ed}):
        e.addLocation(name=n, x=0.0, y=0.0, location_type="marker" if n in markers else "town", movechance=0.5, pop=100, country="c")
    for (a, b), d in zip(edges, lengths):
        e.linkUp(a, b, d)
    return e


def admissible(e, start, aw):
    """every loop-free way along open routes with at most aw places (markers do not count): names, length, place at its end"""
    out = []

    def go(loc, names, length, steps):
        for l in loc.links:
            n = l.endpoint.name
            if n in names:
                continue
            s = steps + (0 if l.endpoint.marker else 1)
            if s > aw:
                continue
            d = length + l.get_distance()
            if not l.endpoint.marker:
                out.append((names[1:] + [n], d, l.endpoint))
            # beyond a marker at the limit: nothing but markers and places that would exceed the level
            if s < aw or l.endpoint.marker:
                go(l.endpoint, names + [n], d, s)
    go(start, [start.name], 0.0, 0)
    return out


def weight(w, e, loc, length):
    r = w.settings.move_rules
    s = loc.getScore(1)
    if r.get("FloodRulesEnabled") is True:
        lv = loc.attributes.get("flood_level", 0)
        if lv > 0:
            s = s * r["FloodLocWeights"][lv]
    x = (r["WeightSoftening"] + s) / (r["DistanceSoftening"] + length) ** r["DistancePower"]
    return x if r["WeightPower"] == 1.0 else x ** r["WeightPower"]


def check_table(ctx, w, e, l, aw, when=""):
    routes = l.routes
    adm = admissible(e, l, aw)
    by = {}
    for names, d, end in adm:
        by.setdefault(end.name, []).append((names, d, end))
    for dest in routes:
        ctx.check(dest in by, "reach", f"{when}table of {l.name} has {dest}, which is not reachable within awareness")
    for dest, alts in by.items():
        ws = [weight(w, e, end, d) for _, d, end in alts]
        if dest not in routes:
            for (names, _, _), x in zip(alts, ws):
                ctx.check(x <= 0, "missing", f"{when}table of {l.name} has nothing for {dest}, reachable by {names}")
            continue
        x, names, end = routes[dest]
        ctx.check(end is loc_by_name(e, dest), "end", f"{when}entry for {dest} of {l.name} names another place")
        own = [y for (n2, _, _), y in zip(alts, ws) if list(n2) == list(names)]
        ctx.check(len(own) > 0, "route", f"{when}route {names} of {l.name} for {dest} is not a way along open routes within awareness")
        if len(own) == 1:
            ctx.check_eq(x, own[0], "weight", f"{when}weight of {l.name} {names}")
        else:
            ctx.check(bor(*[x == y for y in own]), "weight", f"{when}weight of {l.name} {names}")
        for (n2, _, _), y in zip(alts, ws):
            if list(n2) != list(names) or len(own) > 1:
                ctx.check(x >= y, "best", f"{when}{l.name}: {n2} is better than the stored {names}")


def table(ctx, case):
    ctx.nlsat_first = True
    w = ctx.world()
    edges = NETS[case["net"]]
    soft = ctx.choice("softening", [10.0, 0.0]) if case["net"] in ("fork", "twin") else 10.0
    wsoft = ctx.choice("weightSoftening", [0.0, 0.5]) if case["sym"] == "score" else 0.0
    conf(w, case, softening=soft, weight_softening=wsoft)
    if case["sym"] == "length":
        lens = [ctx.real(f"road{i}", 1, 10000) if i < 5 else 200.0 for i in range(len(edges))]
        if case["net"] == "full" and case["aw"] > 2:
            lens[1], lens[4] = 130.0, 170.0
    else:
        lens = [100.0, 150.0, 275.0, 80.0, 160.0, 240.0][:len(edges)]
    e = build(ctx, w, case, lens, case["markers"])
    for k, l in enumerate(e.locations):
        l.setScore(1, ctx.real(f"{l.name}.score", 0, 100) if case["sym"] == "score" else [1.0, 2.0, 0.5, 1.0, 4.0][k])
    # another place's table must not matter
    other = e.locations[-1]
    if other.name != case["start"] and ctx.flag("other first"):
        w.load("flee.crawling").generateLocationRoutes(other, 0)
    l = loc_by_name(e, case["start"])
    r = w.load("flee.crawling").generateLocationRoutes(l, ctx.int("time", 0, 5000))
    if l.marker:
        return
    check_table(ctx, w, e, l, case["aw"])
    ctx.check(set(r) == set(l.routes), "returned", "the returned table is another one")


def use(ctx, case):
    """which routes a person chooses from, with what weights"""
    w = ctx.world()
    flood = ctx.flag("flood")
    child = case.get("child")
    conf(w, case, **({"ChildrenAvoidHazards": True} if child else {}), **(dict(flood_rules=dict(flood_loc_weights=[1.0, 0.5, 0.25], flood_movechances=[0.0, 0.5, 0.5])) if flood else {}))
    edges = NETS[case["net"]]
    e = build(ctx, w, case, [100.0, 150.0, 275.0, 80.0, 160.0, 240.0][:len(edges)])
    sc = {}
    for k, l in enumerate(e.locations):
        sc[l.name] = ctx.real(f"{l.name}.score", 0, 8) if k in (1, 2) and not child else [1.0, 0.5, 3.0, ctx.choice("far", [0.0, 2.0]), 4.0][k]
        l.setScore(1, sc[l.name])
        if flood:
            l.attributes["flood_level"] = [0, 1, 2, 1, 0][k]
    age = ctx.int("age", 0, 90) if child else 40
    e.addAgent(e.locations[0], {"age": age, "gender": "female"})
    a = e.agents[0]
    l = e.locations[0]
    w.load("flee.crawling").generateLocationRoutes(l, 3)
    check_table(ctx, w, e, l, case["aw"])
    want = {}
    for dest, (x, names, end) in l.routes.items():
        f = {0: 1.0, 1: 0.5, 2: 0.25}[end.attributes.get("flood_level", 0)] if flood else 1.0
        s = sc[end.name]
        want[tuple(names)] = x * ((ite(age < 19, s * s, s) if child else s) * f)
    nd = len(ctx.draws)
    got = w.moving.selectRoute(a, 3)
    if not want:
        ctx.check(got is None, "none", "a route although the table is empty")
        return
    ctx.check(got is not None and tuple(got) in want, "chosen", f"route {got} is not in the table")
    ds = [d for d in ctx.draws[nd:] if d["kind"] == "choices"]
    ctx.check(len(ds) == 1, "draws", "number of draws")
    d = ds[0]
    opts = [tuple(o) for o in d["options"]]
    ctx.check(sorted(opts) == sorted(want), "options", f"people choose among {opts}, the table has {sorted(want)}")
    tot = 0
    for v in want.values():
        tot = tot + v
    dw = d["weights"] or [1.0] * len(opts)
    dt = 0
    for v in dw:
        dt = dt + v
    if tot > 0:
        for o, v in zip(opts, dw):
            ctx.check_eq(v * tot, want[o] * dt, "odds", f"chance of {o}")


def days(ctx, case):
    """the tables people use are made anew every day"""
    w = ctx.world()
    conf(w, case)
    edges = NETS[case["net"]]
    lens = [ctx.real(f"road{i}", 1, 1000) if i < 2 else [0, 0, 275.0, 80.0, 160.0, 240.0][i] for i in range(len(edges))]
    e = build(ctx, w, case, lens)
    k = ctx.choice("closed", range(len(edges)))
    e.evolve()
    for l in e.locations:
        check_table(ctx, w, e, l, case["aw"], "first day: ")
    e.close_link(*edges[k], twoway=True)
    e.evolve()
    for l in e.locations:
        check_table(ctx, w, e, l, case["aw"], "after closing: ")
    e.reopen_link(*edges[k], twoway=True)
    loc_by_name(e, "beta").attributes["seen"] = 1
    e.evolve()
    for l in e.locations:
        check_table(ctx, w, e, l, case["aw"], "after reopening: ")


def major(ctx, case):
    """a major route makes a destination beyond the awareness known"""
    w = ctx.world()
    conf(w, case)
    edges = NETS[case["net"]]
    e = build(ctx, w, case, [ctx.real(f"road{i}", 1, 1000) for i in range(len(edges))])
    chain = ["alpha", "beta", "gamma", "delta"] if case["net"] == "line" else ["alpha", "beta", "delta", "deltaB"]
    if case["where"] == "next":
        src, at = "alpha", chain[1]
        mr = chain[2:]
    else:
        src = at = "alpha"
        mr = chain[1:]
    loc_by_name(e, at).major_routes = [list(mr)]
    l = loc_by_name(e, src)
    if ctx.flag("others first"):
        for o in e.locations:
            if o is not l:
                w.load("flee.crawling").generateLocationRoutes(o, 0)
    w.load("flee.crawling").generateLocationRoutes(l, 0)
    judge(ctx, w, e, l, chain[1:], "")
    for dest in l.routes:
        ctx.check(dest == chain[-1] or dest in {x.endpoint.name for x in l.links}, "reach", f"unexpected destination {dest}")


def judge(ctx, w, e, l, full, note, weight_of=None):
    dest = full[-1]
    ctx.check(dest in l.routes, "major-missing", f"the destination of the major route is not in the table of {l.name}{note}")
    x, names, end = l.routes[dest]
    ctx.check(end is loc_by_name(e, dest), "end", "entry names another place")
    length = 0
    cur = l
    for n in full:
        k = [j for j in cur.links if j.endpoint.name == n]
        length = length + k[0].get_distance()
        cur = k[0].endpoint
    r = w.settings.move_rules
    want = (r["WeightSoftening"] + cur.getScore(1)) / ((r["DistanceSoftening"] + length) / 4.0)
    ctx.check_eq(x, want, "major-weight", f"weight of the major route{note}")
    names = list(names)
    # a way along open routes from this place, or exactly the recorded defect
    ctx.check(names == full or names == full[1:], "major-route", f"stored route {names} for {dest} from {l.name}, expected {full}")
    ctx.check(names == full, "major-route", f"the stored major route of {l.name} lacks its first step: {names} instead of {full}", key="major-route-lacks-first-step")


def two_major(ctx, case):
    """of two major routes to one destination the heavier is kept"""
    w = ctx.world()
    ctx.nlsat_first = True
    conf(w, case)
    e = build(ctx, w, dict(net="tail"), [ctx.real("roadB", 1, 1000), ctx.real("roadG", 1, 1000), 100.0, ctx.real("roadGD", 1, 1000), 50.0])
    l = e.locations[0]
    order = ctx.flag("order")
    l.major_routes = [["beta", "delta"], ["gamma", "delta"]] if order else [["gamma", "delta"], ["beta", "delta"]]
    if ctx.flag("others first"):
        for o in e.locations[1:]:
            w.load("flee.crawling").generateLocationRoutes(o, 0)
    w.load("flee.crawling").generateLocationRoutes(l, 0)
    ctx.check("delta" in l.routes, "major-missing", "the destination of the major routes is not in the table")
    x = l.routes["delta"][0]
    ds = {}
    for mid in ("beta", "gamma"):
        ds[mid] = link_between(e, "alpha", mid).get_distance() + link_between(e, mid, "delta").get_distance()
    best = smin(ds["beta"], ds["gamma"])
    ctx.check_eq(x * ((10.0 + best) / 4.0), 1.0, "major-best", "weight kept of two major routes")
