"""C20: parallel scores and behaviour equal the sequential ones."""
from symx.mpi import Cluster

from .lib import *

BOUNDS = ("1 to 4 processes and 1 to 5 locations in every combination, both parallel modes, 2 days with one change in between; every camp, conflict and foreign weight, every flood weight and level, conflict decay, "
          "people counted as displaced from each place on every process; on one process 1-2 people with every random outcome over up to 2 days, with and without fixed routes, with every road length and weight")
OUTSIDE = ("real message passing; the microscale parallel variant; several simulations in one parallel program (the code documents that there is one); capacity limits in the comparison of movements (counts are refreshed at other moments in parallel runs); fixed-route tables on several processes")
ASSUMPTIONS = ["a collective operation returns on every process the same combination of what the processes hand over"]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for size in (1, 2, 3, 4):
        for n in (1, 2, 3, 4, 5):
            for par in ("loc-par", "classic"):
                cs.append(dict(t="scores", size=size, n=n, par=par, fixed=False))
    for size in (2, 3) if not T else (1, 2, 3, 4):
        cs.append(dict(t="scores", size=size, n=4, par="loc-par", fixed=True))
    for size in (2, 3):
        cs.append(dict(t="spawned", size=size, lat="high_latency"))
        cs.append(dict(t="spawned", size=size, lat="low_latency"))
        cs.append(dict(t="weights", size=size, par="loc-par"))
        cs.append(dict(t="weights", size=size, par="classic"))
    for par in ("loc-par", "classic"):
        for fixed in (False, True):
            for aw in (0, 1, 2):
                cs.append(dict(t="same", par=par, fixed=fixed, aw=aw, days=2, people=1, op="none"))
        for op in ("close", "reopen", "conflict", "camp", "spawn", "sinks", "clear"):
            cs.append(dict(t="same", par=par, fixed=False, aw=1, days=2, people=1, op=op))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


KINDS = ["town", "conflict_zone", "camp", "marker", "flood_zone"]


def rules(fixed, aw=1, **kw):
    mv = dict(max_move_speed=100, max_walk_speed=100, awareness_level=aw, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.5, conflict_movechance=1.0, avoid_short_stints=False, capacity_buffer=1.0, fixed_routes=fixed)
    mv.update(kw)
    return mv


def build(w, eco, n, kinds, foreign, levels):
    for i in range(n):
        a = {}
        if levels[i] is not None:
            a["flood_level"] = levels[i]
        eco.addLocation(name=f"place{i}", location_type=kinds[i], pop=1000, foreign=foreign[i], country="land%d" % i, attributes=a)
    for i in range(n - 1):
        eco.linkUp(f"place{i}", f"place{i+1}", 100.0 * (i + 1))


def scores(ctx, case):
    size, n = case["size"], case["n"]
    weights = dict(camp_weight=ctx.real("campWeight", 0, 10, lo_open=True), conflict_weight=ctx.real("conflictWeight", 0, 10, lo_open=True), foreign_weight=ctx.real("foreignWeight", 0, 10, lo_open=True))
    fl = [0.0, ctx.real("floodWeight1", 0, 10), ctx.real("floodWeight2", 0, 10)]
    shift = ctx.choice("shift", range(len(KINDS)) if not case["fixed"] else [1])
    kinds = [KINDS[(i + shift) % len(KINDS)] for i in range(n)]
    foreign = [bool((i + shift) % 2) for i in range(n)]
    levels = [(i % 3) if k == "flood_zone" else None for i, k in enumerate(kinds)]
    change = ctx.choice("change", ["none", "conflict", "open", "flood", "calm"] if not case["fixed"] else ["none", "close", "reopen"])
    who = ctx.choice("who", range(n)) if change != "none" else 0

    decay = not case["fixed"] and ctx.flag("decay")

    def conf(w):
        settings(w, {"move_rules": dict(rules(case["fixed"]), **weights), "spawn_rules": dict(conflict_spawn_decay=[1.0, 0.5, 0.25], conflict_spawn_decay_interval=10) if decay else {}})
        w.settings.move_rules["FloodLocWeights"] = list(fl)

    def alter(e):
        if change == "conflict":
            e.add_conflict_zone(f"place{who}", 1.0)
        elif change == "calm":
            e.remove_conflict_zone(f"place{who}")
        elif change == "open":
            e.open_camp(f"place{who}", False)
        elif change == "close":
            e.close_link(f"place{min(who, n - 2)}", f"place{min(who, n - 2) + 1}", twoway=True)
        elif change == "reopen":
            (e.close_link if e.time == start + 1 else e.reopen_link)(f"place{min(who, n - 2)}", f"place{min(who, n - 2) + 1}", twoway=True)
        elif change == "flood":
            e.locations[who].attributes["flood_level"] = 1

    ws = ctx.world()
    conf(ws)
    se = ws.flee.Ecosystem()
    build(ws, se, n, kinds, foreign, levels)
    cl = Cluster(ctx, size)

    def make(r, w):
        conf(w)
        e = w.pflee.Ecosystem()
        e.parallel_mode = case["par"]
        build(w, e, n, kinds, foreign, levels)
        return e
    es = cl.each(make)
    start = ctx.choice("start", [0, 7, 8, 18] if decay and change in ("none", "conflict") else [0])
    for e in [se] + es:
        e.time = start
    for day in range(start, start + (2 if not change == "reopen" else 3)):
        se.evolve()
        cl.each(lambda r, w: es[r].evolve())
        for i in range(n):
            want = se.locations[i].getScore(1)
            for r in range(size):
                l = es[r].locations[i]
                ctx.check_eq(l.getScore(1), want, "score", f"day {day}: attractiveness of place {i} of {n} on process {r} of {size}")
                ctx.check_eq(l.getScore(0), se.locations[i].getScore(0), "score0", f"day {day}: base score of place {i} of {n} on process {r} of {size}")
            for j, sl in enumerate(se.locations[i].links):
                for r in range(size):
                    ctx.check_eq(es[r].locations[i].links[j].getBaseEndPointScore(), sl.getBaseEndPointScore(), "score-link", f"day {day}: attractiveness at the end of route {j} of place {i} on process {r}")
        for r in range(size):
            if case["fixed"]:
                for i in range(n):
                    ctx.check(sorted(es[r].locations[i].routes) == sorted(se.locations[i].routes), "tables", f"day {day}: destinations known at place {i} on process {r}")
        alter(se)
        for e in es:
            alter(e)


def spawned(ctx, case):
    """people taken from the population are counted the same everywhere"""
    size = case["size"]
    cl = Cluster(ctx, size)

    def make(r, w):
        settings(w, {"move_rules": rules(False), "spawn_rules": dict(take_from_population=True)})
        e = w.pflee.Ecosystem()
        e.latency_mode = case["lat"]
        for i in range(3):
            e.addLocation(name=f"place{i}", location_type="conflict_zone", pop=1000 * (i + 1), movechance=0.0)
        e.linkUp("place0", "place1", 100.0)
        return e
    es = cl.each(make)
    for e in es:
        for l in e.locations:
            l.movechance = 0.0
    n = [0, 0, 0]
    for day in range(2):
        for k in range(2 if day else 3):
            i = ctx.choice(f"from{day}.{k}", [0, 1, 2])
            n[i] += 1
            for e in es:
                e.addAgent(e.locations[i], {})
        cl.each(lambda r, w: es[r].evolve())
        for r, e in enumerate(es):
            for i in range(3):
                ctx.check_eq(e.locations[i].numAgentsSpawned, n[i], "spawned", f"day {day}: people displaced from place {i} according to process {r} of {size}")
                ctx.check_eq(e.locations[i].pop, 1000 * (i + 1) - n[i], "pop", f"day {day}: population of place {i} according to process {r} of {size}")


def weights(ctx, case):
    """where new people come from: the weights are the same on all processes and as in a sequential run"""
    size = case["size"]
    decay = ctx.flag("decay")
    ws = ctx.world()
    cl = Cluster(ctx, size)
    pops = [ctx.int(f"pop{i}", 2, 100000) for i in range(4)]
    start = ctx.choice("start", [0, 3])
    op = ctx.choice("op", ["none", "conflict", "calm", "change"])

    def make(w, mod):
        settings(w, {"move_rules": rules(False), "spawn_rules": dict(take_from_population=False, conflict_spawn_decay=[1.0, 0.5, 0.25] if decay else None) if decay else {}})
        e = mod.Ecosystem()
        for i, k in enumerate(("conflict_zone", "town", "conflict_zone", "camp")):
            e.addLocation(name=f"place{i}", location_type=k, pop=pops[i])
        e.time = start
        return e

    def alter(e):
        if op == "conflict":
            e.add_conflict_zone("place1", 0.5)
        elif op == "calm":
            e.remove_conflict_zone("place2")
        elif op == "change":
            e.change_location_type("place3", "conflict_zone")
    se = make(ws, ws.flee)
    es = cl.each(lambda r, w: make(w, w.pflee))
    for e in es:
        e.parallel_mode = case["par"]
    for day in range(3):
        se.evolve()
        cl.each(lambda r, w: es[r].evolve())
        for r, e in enumerate(es):
            for i in range(4):
                ctx.check_eq(e.spawn_weights[i], se.spawn_weights[i], "weights", f"day {day}: weight of place {i} on process {r}")
            ctx.check_eq(e.spawn_weight_total, se.spawn_weight_total, "weights", f"day {day}: total weight on process {r}")
        alter(se)
        for e in es:
            alter(e)


def state(e, people):
    out = []
    for a in people:
        l = a.location
        where = None if l is None else ("link", l.startpoint.name, l.endpoint.name) if hasattr(l, "endpoint") else ("place", l.name)
        out.append((where, bool(a.travelling), list(a.route) if getattr(a, "route", None) else [], a.distance_travelled_on_link, a.recent_travel_distance, a.places_travelled, a.timesteps_since_departure))
    return out


def same(ctx, case):
    """one process: the same draws lead every person along the same way"""
    fixed, op = case["fixed"], case["op"]
    road = ctx.choice("road", [50.0, 150.0, 250.0])
    cw, xw = ctx.real("campWeight", 0.1, 10), ctx.choice("conflictWeight", [0.25, 1.0])
    mv = rules(fixed, case["aw"], camp_weight=cw, conflict_weight=xw)
    if case["people"] < 2:
        mv["default_movechance"] = ctx.real("chance", 0.01, 1)

    def go(w, mod, evolve):
        settings(w, {"move_rules": mv, "spawn_rules": dict(take_from_population=op == "spawn", camps_are_sinks=op == "sinks")})
        e = mod.Ecosystem()
        if hasattr(e, "parallel_mode"):
            e.parallel_mode = case["par"]
        e.addLocation(name="alpha", location_type="conflict_zone", pop=1000, country="here")
        e.addLocation(name="beta", location_type="town", pop=500, country="here")
        e.addLocation(name="campA", location_type="idpcamp", country="here", attributes={"deactivation_probability": 0.5})
        e.addLocation(name="campB", location_type="camp", country="there", foreign=True)
        e.linkUp("alpha", "beta", road)
        e.linkUp("beta", "campA", 50.0)
        e.linkUp("beta", "campB", 150.0)
        for k in range(case["people"]):
            e.addAgent(e.locations[k], {})
        trace = []
        for day in range(case["days"]):
            evolve(e)
            trace.append(state(e, e.agents))
            trace.append([l.numAgents for l in e.locations] + [k.numAgents for l in e.locations for k in l.links])
            if op in ("close", "reopen"):
                e.close_link("alpha", "beta", twoway=True)
                if op == "reopen":
                    e.reopen_link("alpha", "beta", twoway=True)
            elif op == "conflict":
                e.add_conflict_zone("beta", 1.0)
            elif op == "camp":
                e.open_camp("beta", True)
            elif op == "spawn":
                locs = e.pick_spawn_locations(1)
                for l in locs:
                    e.addAgent(l, {})
            elif op == "clear":
                e.clearLocationsFromAgents(["campA", "campB"])
            trace.append([l.pop for l in e.locations] + [l.numAgentsSpawned for l in e.locations] + [e.numAgents()])
        return trace

    ws = ctx.world()
    rng0 = ctx.rng_count
    d0 = len(ctx.draws)
    t1 = go(ws, ws.flee, lambda e: e.evolve())
    n1 = ctx.rng_count
    first = [d for d in ctx.draws[d0:]]
    cl = Cluster(ctx, 1)
    ctx.rng_count = rng0
    d1 = len(ctx.draws)

    def names(options):
        return [o if isinstance(o, (list, tuple, str)) else getattr(o, "name", None) for o in options]

    def compare(d):
        k = len(ctx.draws) - 1 - d1
        ctx.check(k < len(first) and first[k]["kind"] == "choices" and names(first[k]["options"]) == names(d["options"]), "choices", "the parallel run chooses among other routes")
        for i, x in enumerate(d["weights"] or []):
            ctx.check_eq(x, first[k]["weights"][i], "weights", f"weight of route {d['options'][i]}")
    ctx.on_draw = compare
    t2 = cl.each(lambda r, w: go(w, w.pflee, lambda e: e.evolve()))[0]
    ctx.on_draw = None
    ctx.check(ctx.rng_count == n1, "draws", f"the parallel run draws {ctx.rng_count - rng0} numbers, the sequential one {n1 - rng0}")
    for k, (x, y) in enumerate(zip(t1, t2)):
        day = k // 3
        ctx.check(len(x) == len(y), "people", f"day {day}: number of people differs")
        for i, (p, q) in enumerate(zip(x, y)):
            if isinstance(p, tuple):
                ctx.check(p[:3] == q[:3], "place", f"day {day}: person {i} is at {p[:3]}, on one process at {q[:3]}")
                for u, v in zip(p[3:], q[3:]):
                    ctx.check_eq(v, u, "progress", f"day {day}: travel record of person {i}")
            else:
                ctx.check_eq(q, p, "count", f"day {day}: count {i}")
