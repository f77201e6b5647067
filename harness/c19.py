"""C19: parallel runs share people out without loss and agree on all counts."""
from symx.mpi import Cluster

from .lib import *

BOUNDS = ("1 to 4 processes, up to 4 people added in every mix of the three ways of adding; up to 3 people over 2 days on a network of 4 places with every random outcome on every process, both communication modes and both parallel modes, "
          "routes closed and reopened, places emptied and people added between the days, with every road length of the main road; camps that take people out of the simulation")
OUTSIDE = "real message passing (the collective operations are carried out on the processes' arguments in one program); more than 4 processes; the microscale parallel variant"
ASSUMPTIONS = ["a collective operation returns on every process the same combination of what the processes hand over; processes that disagree about the operation or the sizes are an error"]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for size in (1, 2, 3, 4):
        for take in (False, True):
            cs.append(dict(t="share", size=size, n=4 if not T else 6, take=take, cap=-1 if take else 1, update=not take))
    for size in (2, 3):
        for lat in ("high_latency", "low_latency"):
            for op in ("none", "close", "closed-far", "reopen", "clear", "add", "clear-add"):
                cs.append(dict(t="days", size=size, lat=lat, par="loc-par" if op != "close" else "classic", op=op, people=1 if "add" in op else 2, days=2))
            cs.append(dict(t="days", size=size, lat=lat, par="classic", op="none", people=3, days=1))
            if size == 2 or T:
                cs.append(dict(t="days", size=size, lat=lat, par="loc-par", op="sinks", people=2, days=2))
            else:
                cs.append(dict(t="days", size=size, lat=lat, par="loc-par", op="sinks", people=1, days=2))
    for lat in ("high_latency", "low_latency"):
        cs.append(dict(t="days", size=1, lat=lat, par="loc-par", op="none", people=2, days=2))
        for size in (2, 3):
            cs.append(dict(t="counts", size=size, lat=lat, far=True))
            cs.append(dict(t="counts", size=size, lat=lat, far=False))
    if T:
        for lat in ("high_latency", "low_latency"):
            for op in ("close", "reopen", "add"):
                cs.append(dict(t="days", size=3, lat=lat, par="loc-par", op=op, people=3, days=2))
                cs.append(dict(t="days", size=2, lat=lat, par="loc-par", op=op, people=2, days=3))
                cs.append(dict(t="days", size=4, lat=lat, par="loc-par", op=op, people=4, days=1))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def conf(w, take=False, sinks=False, log=0):
    settings(w, {"move_rules": dict(max_move_speed=100, max_walk_speed=100, awareness_level=1, camp_movechance=0.0, default_movechance=0.5, conflict_movechance=1.0, avoid_short_stints=False, capacity_buffer=1.0),
                 "spawn_rules": dict(take_from_population=take, camps_are_sinks=sinks)})


def build(ctx, cl, case, road=None, **kw):
    def go(r, w):
        conf(w, **kw)
        e = w.pflee.Ecosystem()
        e.latency_mode = case.get("lat", "high_latency")
        e.parallel_mode = case.get("par", "loc-par")
        e.addLocation(name="alpha", location_type="conflict_zone", pop=1000, country="here")
        e.addLocation(name="beta", location_type="town", pop=500, country="here")
        e.addLocation(name="campA", location_type="idpcamp", capacity=case.get("cap", -1), country="here", attributes={"deactivation_probability": 0.5})
        e.addLocation(name="campB", location_type="camp", capacity=-1, country="there")
        e.linkUp("alpha", "beta", 150.0 if road is None else road)
        e.linkUp("beta", "campA", 50.0)
        e.linkUp("beta", "campB", 250.0)
        e.linkUp("alpha", "campA", 300.0)
        return e
    return cl.each(go)


def consistent(ctx, es, when, total=None):
    # people a camp has taken out of the simulation stay counted in that camp
    retired = sum(1 for e in es for a in e.agents if a.location is None)
    extra = 0
    for i, loc0 in enumerate(es[0].locations):
        want = sum(1 for e in es for a in e.agents if a.location is e.locations[i])
        if retired and loc0.camp:
            extra += loc0.numAgents - want
            want = loc0.numAgents
            ctx.check(want >= 0, "count-place", f"{when}: negative count")
        for r, e in enumerate(es):
            ctx.check_eq(e.locations[i].numAgents, want, "count-place", f"{when}: people counted in {loc0.name} by process {r} of {len(es)}")
        for r, e in enumerate(es):
            ctx.check(len(e.locations[i].links) == len(loc0.links), "links", f"{when}: process {r} knows {len(e.locations[i].links)} open routes from {loc0.name}")
        for j, l0 in enumerate(loc0.links):
            want = sum(1 for e in es for a in e.agents if a.location is e.locations[i].links[j])
            for r, e in enumerate(es):
                l = e.locations[i].links[j]
                ctx.check(l.endpoint.name == l0.endpoint.name, "links", f"{when}: order of routes differs")
                ctx.check_eq(l.numAgents, want, "count-link", f"{when}: people counted on {loc0.name}-{l0.endpoint.name} by process {r} of {len(es)}")
    if retired:
        ctx.check_eq(extra, retired, "count-retired", f"{when}: people retired in camps against counts of the camps")
    all_ = sum(len(e.agents) for e in es)
    if total is not None:
        ctx.check(all_ == total, "lost", f"{when}: {all_} people exist, {total} expected")
    idps = sum(1 for e in es for a in e.agents if a.location is not None and not hasattr(a.location, "endpoint") and a.location.idpcamp)
    if retired:
        idps = es[0].locations[2].numAgents
    for r, e in enumerate(es):
        ctx.check_eq(e.numAgents(), all_, "total", f"{when}: total according to process {r} of {len(es)}")
        ctx.check_eq(e.numAgentsOnRank(), len(e.agents), "own", f"{when}: own people according to process {r}")
        ctx.check_eq(e.numIDPs(), idps, "idps", f"{when}: people in IDP camps according to process {r} of {len(es)}")


def share(ctx, case):
    size = case["size"]
    cl = Cluster(ctx, size)
    es = build(ctx, cl, case, take=case["take"])
    n = 0
    ways = ["add", "insert", "bulk", "stop"]
    for step in range(case["n"]):
        if n >= case["n"]:
            break
        way = ctx.choice(f"way{step}", ways)
        if way == "stop":
            break
        if way == "bulk":
            k = ctx.choice(f"bulk{step}", [0, 2, 3])
            k = min(k, case["n"] - n)
            for e in es:
                e.insertAgents(e.locations[1], k)
        elif way == "add":
            k = 1
            for e in es:
                e.addAgent(e.locations[0], {})
        else:
            k = 1
            for e in es:
                e.insertAgent(e.locations[2], {})
        n += k
        shares = [len(e.agents) for e in es]
        ctx.check(sum(shares) == n, "lost", f"{n} people added, processes hold {shares}")
        ctx.check(max(shares) - min(shares) <= 1, "uneven", f"{n} people added, processes hold {shares}")
        for r, e in enumerate(es):
            ctx.check_eq(e.numAgents(), n, "total", f"total according to process {r} of {size}")
        if case["update"]:
            cl.each(lambda r, w: es[r].updateNumAgents(log=False))
            consistent(ctx, es, f"after adding {n} people", n)
    cl.each(lambda r, w: es[r].updateNumAgents(log=False))
    consistent(ctx, es, f"after adding {n} people", n)
    pops = [e.locations[0].pop for e in es]
    ctx.check(all(p == pops[0] for p in pops), "population", f"population of the place people come from differs: {pops}")


def days(ctx, case):
    size, op = case["size"], case["op"]
    cl = Cluster(ctx, size)
    es = build(ctx, cl, case, sinks=op == "sinks", road=ctx.choice("road", [50.0, 150.0, 250.0] if "add" not in op else [50.0, 250.0]))
    total = 0
    starts = ["alpha", "beta", "alpha"]
    for k in range(case["people"]):
        i = 0 if starts[k % 3] == "alpha" else 1
        for e in es:
            e.addAgent(e.locations[i], {})
        total += 1
    gone = 0
    for day in range(case["days"]):
        cl.each(lambda r, w: es[r].evolve())
        consistent(ctx, es, f"after day {day}", total)
        if day == case["days"] - 1:
            break
        if op in ("close", "reopen"):
            cl.each(lambda r, w: es[r].close_link("alpha", "beta", twoway=True))
            if op == "reopen":
                cl.each(lambda r, w: es[r].reopen_link("alpha", "beta", twoway=True))
        elif op == "closed-far":
            cl.each(lambda r, w: es[r].close_location("campB", twoway=True))
        elif op in ("clear", "clear-add"):
            names = ctx.choice("cleared", [["beta"], ["campA", "campB"], ["alpha", "beta", "campA", "campB"]])
            before = sum(1 for e in es for a in e.agents if a.location is not None and not hasattr(a.location, "endpoint") and a.location.name in names)
            cl.each(lambda r, w: es[r].clearLocationsFromAgents(list(names)))
            total -= before
            consistent(ctx, es, f"after emptying {names}", total)
            if op == "clear-add":
                for e in es:
                    e.insertAgents(e.locations[2], 1)
                    e.insertAgents(e.locations[3], 2)
                total += 3
                ctx.check(sum(len(e.agents) for e in es) == total, "lost", "people added after emptying places")
        elif op == "add":
            for e in es:
                e.addAgent(e.locations[0], {})
                e.insertAgents(e.locations[2], 1)
            total += 2
            ctx.check(sum(len(e.agents) for e in es) == total, "lost", "people added between days")
    ctx.check(all(e.time == case["days"] for e in es), "time", "the processes' days differ")


def counts(ctx, case):
    """the exchange of counts alone: every number of people on every process in every place"""
    size = case["size"]
    cl = Cluster(ctx, size)
    es = build(ctx, cl, case)
    if case["far"]:
        cl.each(lambda r, w: es[r].close_link("alpha", "beta", twoway=True))
    want = {}
    for r, e in enumerate(es):
        for i, loc in enumerate(e.locations):
            for j, x in enumerate([loc] + list(loc.links) + list(loc.closed_links)):
                n = ctx.int(f"n{r}.{i}.{j}", 0, 1000)
                x.numAgentsOnRank = n
                x.numAgents = ctx.int(f"old{r}.{i}.{j}", 0, 5000)
                want[i, j] = want.get((i, j), 0) + n
    closed = ctx.flag("closed too")
    old = {(r, i, j): l.numAgents for r, e in enumerate(es) for i, loc in enumerate(e.locations) for j, l in enumerate(loc.closed_links)}
    cl.each(lambda r, w: es[r].updateNumAgents(CountClosed=closed, log=False))
    for r, e in enumerate(es):
        for i, loc in enumerate(e.locations):
            for j, x in enumerate([loc] + list(loc.links)):
                ctx.check_eq(x.numAgents, want[i, j], "exchange", f"count of {loc.name}/{j} on process {r}")
            for j, x in enumerate(loc.closed_links):
                if closed:
                    ctx.check_eq(x.numAgents, want[i, len(loc.links) + 1 + j], "exchange-closed", f"count of closed route {j} of {loc.name} on process {r}")
                else:
                    ctx.check_eq(x.numAgents, old[r, i, j], "exchange-closed", f"count of closed route {j} of {loc.name} on process {r} although it was not asked for")
    for e in es:
        ctx.check_eq(e.numAgents(), 0, "total", "total of nobody")
    ctx.check_eq(es[0].numIDPs(), want[2, 0], "idps", "people in the IDP camp")
