"""C24: log files state exactly what happened each day."""
from symx import core, shims

from .lib import *

BOUNDS = ("up to 3 people in every state (in a place, under way, retired) with every value of all numeric fields and attributes, 3 days, agent levels 0-3 and link levels 0-2, both granularities, up to 3 links with every cumulative count; "
          "full runs of 3 days over a chain of places with every route length 1..1500 km and speed 200, people who start, pass through several places, arrive and are retired on any day")
OUTSIDE = "more people and links (one line each, same code); the log of parallel runs beyond the rank label; lines of people removed with clearLocationsFromAgents"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for lv in (1, 2, 3):
        for gran in ("location", "region"):
            cs.append(dict(t="direct", level=lv, gran=gran, rank=0))
            cs.append(dict(t="direct", level=lv, gran=gran, rank=3))
            cs.append(dict(t="run", level=lv, gran=gran, link=lv - 1, days=3 if not T else 4))
    for lv in (1, 2):
        for gran in ("location", "region", None):
            for par in (False, True):
                cs.append(dict(t="links", level=lv, gran=gran, par=par))
    cs.append(dict(t="off", gran="location"))
    cs.append(dict(t="off", gran="region"))
    cs.append(dict(t="empty", gran=None))
    for lv in (1, 2):
        cs.append(dict(t="linkrun", level=lv, gran="location", closing=False))
        cs.append(dict(t="linkrun", level=lv, gran="location", closing=True))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def conf(w, agent=0, link=0, gran=None, sink=False, **mv):
    ll = dict(agent=agent, link=link)
    if gran:
        ll["granularity"] = gran
    rules = dict(max_move_speed=200, max_walk_speed=200, awareness_level=1, camp_movechance=0.0, default_movechance=1.0, conflict_movechance=1.0, avoid_short_stints=False, capacity_buffer=1.0)
    rules.update(mv)
    settings(w, {"log_levels": ll, "move_rules": rules, "spawn_rules": {"camps_are_sinks": sink}})


def num(ctx, s):
    """number written in a log file"""
    s = s.strip()
    v = shims._tok(core.ENGINE, s) if ctx.symbolic else None
    if v is not None:
        return v
    try:
        return int(s)
    except ValueError:
        return float(s)


def same(ctx, got, want, label, msg):
    if is_sym(want) or isinstance(want, (int, float)) and not isinstance(want, bool):
        try:
            g = num(ctx, got)
        except ValueError:
            ctx.check(False, label, f"{msg}: {got!r} is no number")
            return
        if not ctx.symbolic and isinstance(g, float):
            ctx.check(abs(g - want) <= 1e-9 * (1 + abs(want)), label, f"{msg}: {got}, expected {want}")
        else:
            ctx.check(g == want, label, f"{msg}: {got}, expected {want}")
    else:
        ctx.check(got == str(want), label, f"{msg}: {got!r}, expected {want!r}")


def lines(name):
    import os
    if not os.path.exists(name):
        return None
    with open(name, encoding="utf-8") as f:
        return [x for x in f.read().split("\n") if x != ""]


def shown(loc, gran):
    if gran == "region":
        if hasattr(loc, "endpoint"):
            return f"L:{loc.startpoint.region}:{loc.endpoint.region}", 0.0, 0.0
        return loc.region, 0.0, 0.0
    return loc.name, loc.x, loc.y


def agent_line(ctx, text, want, gran, what):
    """want: time text, id, home, place, travelling, distance, places, moved, attribute values"""
    f = text.split(",")
    if f and f[-1] == "":
        f = f[:-1]
    t, aid, home, place, trav, dist, places, moved, attrs = want
    n, x, y = shown(place, gran)
    exp = [t, aid, shown(home, gran)[0], n, x, y, trav, dist, places, moved] + attrs
    ctx.check(len(f) == len(exp), "fields", f"{what}: {len(f)} fields, expected {len(exp)}: {text}")
    if len(f) != len(exp):
        return
    for k, (g, v) in enumerate(zip(f, exp)):
        nm = ["time", "id", "home", "place", "x", "y", "travelling", "distance", "places", "moved"][k] if k < 10 else "attribute"
        same(ctx, g, v, nm, f"{what}, field {nm}")


def network(ctx, w, kind="town"):
    e = w.flee.Ecosystem()
    for n, r, k in (("alpha", "north", "conflict_zone"), ("beta", "south", kind), ("gamma", "south", "town"), ("campC", "east", "camp")):
        e.addLocation(name=n, region=r, x=ctx.real("x" + n, -180, 180), y=ctx.real("y" + n, -90, 90), location_type=k, capacity=-1, pop=1000)
    return e


def direct(ctx, case):
    w = ctx.world()
    lv, gran, rank = case["level"], case["gran"], case["rank"]
    conf(w, agent=lv, gran=gran)
    e = network(ctx, w)
    e.linkUp("alpha", "beta", 100.0)
    e.linkUp("beta", "campC", 50.0)
    locs = e.locations
    places = {"place": locs[1], "camp": locs[3], "link": locs[0].links[0], "back": locs[3].links[0], "gone": None}
    homes = [locs[0], locs[2], locs[1]]
    D = w.load("flee.Diagnostics")
    at = [{"age": ctx.int("age0", 0, 100), "gender": "male"}, {"age": ctx.int("age1", 0, 100), "gender": "other"}, {"age": 3, "gender": ""}]
    for i in range(3):
        e.addAgent(homes[i], dict(at[i]))
    fn = f"agents.out.{rank}"
    write(fn, "left over from an earlier run\n")
    keep = []
    day0 = 0
    for t in (0, 1, 5):
        exp = []
        for i, a in enumerate(e.agents):
            k = ctx.choice(f"state{i}@{t}", ["place", "link", "gone"]) if i == 0 else ctx.choice(f"state{i}@{t}", ["camp", "gone"]) if i == 1 else "back"
            a.location = places[k]
            a.travelling = k in ("link", "back")
            a.distance_travelled = ctx.real(f"dist{i}@{t}", 0, 10 ** 5)
            a.places_travelled = ctx.int(f"places{i}@{t}", 1, 100)
            a.distance_moved_this_timestep = ctx.real(f"moved{i}@{t}", 0, 5000)
            a.recent_travel_distance = ctx.real(f"recent{i}@{t}", 0, 1)
            a.timesteps_since_departure = ctx.int(f"days{i}@{t}", 0, 5000)
            a.distance_travelled_on_link = ctx.real(f"onlink{i}@{t}", 0, 1000)
            hops = [locs[0].links[0], locs[2]][:(i + t) % 3]
            if lv > 1:
                a.locations_visited = list(hops)
            if k == "gone":
                continue
            row = lambda tt, pl: (tt, f"{rank}-{i}", homes[i], pl, bool(a.travelling), a.distance_travelled, a.places_travelled, a.distance_moved_this_timestep, list(at[i].values()))
            exp.append(row(t, a.location))
            if lv > 1:
                for h, pl in enumerate(hops):
                    exp.append(row(t if lv == 2 else f"{t}-{h + 1}", pl))
        if rank == 0 and ctx.flag(f"seq{t}"):
            D.write_agents(agents=e.agents, time=t)
        else:
            D.write_agents_par(rank=rank, agents=e.agents, time=t)
        L = lines(fn)
        if t == 0:
            ctx.check(len(L) > 0 and L[0].startswith("#time,"), "header", f"first line {L[:1]}")
            keep = L[:1]
        ctx.check(L[:len(keep)] == keep, "kept", "earlier lines changed")
        new = L[len(keep):]
        ctx.check(len(new) == len(exp), "count", f"{len(new)} lines on day {t}, expected {len(exp)}")
        for g, x in zip(new, exp):
            agent_line(ctx, g, x, gran, f"day {t}")
        keep = L


def run(ctx, case):
    w = ctx.world()
    lv, gran = case["level"], case["gran"]
    sink = ctx.flag("sink")
    conf(w, agent=lv, gran=gran, link=case["link"], sink=sink)
    e = w.flee.Ecosystem()
    d1, d2 = ctx.real("d1", 1, 700), ctx.real("d2", 1, 700)
    A = e.addLocation(name="alpha", region="north", x=1.5, y=2.5, location_type="conflict_zone", pop=100)
    B = e.addLocation(name="beta", region="south", x=3.5, y=4.5, location_type="town")
    C = e.addLocation(name="campC", region="east", x=5.5, y=6.5, location_type="camp", capacity=-1, attributes={"deactivation_probability": 1.0})
    # one-way chain: people can only go on
    e.linkUp("alpha", "beta", d1)
    e.linkUp("beta", "campC", d2)
    e.remove_link("beta", "alpha", twoway=False)
    e.remove_link("campC", "beta", twoway=False)
    l1, l2 = A.links[0], B.links[0]
    e.addAgent(A, {"age": 30})
    a = e.agents[0]
    # reference account
    place, acc, total, places, gone = A, 0, 0, 1, False
    keep = None
    for t in range(case["days"]):
        e.evolve()
        if ctx.symbolic or True:
            for d_ in ctx.draws:
                if d_["kind"] == "random":
                    ctx.assume(d_["value"] < 1)
        exp = []
        if not gone:
            moved = 0
            hops = []
            legs = 0
            while True:
                if place is C:
                    break
                if place in (A, B):
                    place, acc = (l1 if place is A else l2), 0
                # a second route on the same day is travelled with a full day's speed (recorded finding of C03)
                acc = acc + 200
                moved = moved + 200
                length = d1 if place is l1 else d2
                if acc > length:
                    moved = moved + length - acc
                    total = total + length
                    places += 1
                    if moved < 200:
                        hops.append(place)
                        place = B if place is l1 else C
                    else:
                        place = B if place is l1 else C
                        break
                else:
                    break
            row = lambda tt, pl: (tt, "0-0", A, pl, place in (l1, l2), total, places, moved, [30])
            exp = [row(t, place)]
            if lv > 1:
                exp += [row(t if lv == 2 else f"{t}-{h + 1}", pl) for h, pl in enumerate(hops)]
            gone = sink and place is C
        L = lines("agents.out.0")
        ctx.check(L is not None, "file", "no log file")
        if L is None:
            return
        if keep is None:
            keep = L[:1]
        ctx.check(L[:len(keep)] == keep, "kept", "earlier lines changed")
        new = L[len(keep):]
        ctx.check(len(new) == len(exp), "count", f"{len(new)} lines on day {t}, expected {len(exp)}")
        for g, x in zip(new, exp):
            agent_line(ctx, g, x, gran, f"day {t}")
        keep = L
        ctx.check((lines("links.out.0") is not None) == (case["link"] > 0), "file", "link log file")


def link_lines(ctx, e, t, lv, gran):
    """(start, end, count, attribute) of every open link"""
    exp = []
    for loc in e.locations:
        for l in loc.links:
            s, d = (l.startpoint.region, l.endpoint.region) if gran == "region" else (l.startpoint.name, l.endpoint.name)
            exp.append((t, s, d, l.cumNumAgents, "total"))
            if lv > 1:
                for a, vals in l.cumNumAgentsByAttribute.items():
                    for v, n in vals.items():
                        exp.append((t, s, d, n, f"{a}:{v}"))
    return exp


def check_links(ctx, new, exp, t):
    ctx.check(len(new) == len(exp), "count", f"{len(new)} link lines on day {t}, expected {len(exp)}")
    for g, x in zip(new, exp):
        f = g.split(",")
        ctx.check(len(f) == 5, "fields", f"link line {g}")
        if len(f) == 5:
            for k, (a, b) in enumerate(zip(f, x)):
                same(ctx, a, b, "link-" + ["time", "start", "end", "count", "attribute"][k], f"link line of day {t}")


def links(ctx, case):
    w = ctx.world()
    lv, gran = case["level"], case["gran"]
    conf(w, link=lv, gran=gran)
    e = network(ctx, w, ctx.choice("kind", ["town", "marker", "forwarding_hub", "idpcamp"]))
    e.linkUp("alpha", "beta", 100.0)
    e.linkUp("beta", "campC", 50.0)
    D = w.load("flee.Diagnostics")
    rank = 2 if case["par"] else 0
    fn = f"links.out.{rank}"
    write(fn, "left over\n")
    keep = None
    for t in (0, 1, 4):
        for loc in e.locations:
            for l in loc.links:
                l.cumNumAgents = ctx.int(f"cum{l.name}@{t}", 0, 10 ** 6)
                l.numAgents = ctx.int(f"now{l.name}@{t}", 0, 10 ** 6)
                if lv > 1:
                    l.cumNumAgentsByAttribute = {"gender": {"male": ctx.int(f"m{l.name}@{t}", 0, 100), "other": 2}, "age": {7: 1}} if l.endpoint.name != "alpha" else {}
        if t == 4:
            e.close_link("alpha", "beta", twoway=False)
        if case["par"]:
            D.write_links_par(rank=rank, locations=e.locations, time=t)
        else:
            D.write_links(locations=e.locations, time=t)
        L = lines(fn)
        if keep is None:
            ctx.check(len(L) > 0 and L[0].startswith("#time"), "header", f"first line {L[:1]}")
            keep = L[:1]
        ctx.check(L[:len(keep)] == keep, "kept", "earlier lines changed")
        check_links(ctx, L[len(keep):], link_lines(ctx, e, t, lv, gran), t)
        keep = L


def linkrun(ctx, case):
    """the counts by attribute follow the people who enter"""
    w = ctx.world()
    lv = case["level"]
    conf(w, link=lv, gran="location")
    e = w.flee.Ecosystem()
    d = ctx.real("d", 1, 500)
    A = e.addLocation(name="alpha", x=0.0, y=0.0, location_type="conflict_zone", pop=100)
    e.addLocation(name="campC", x=0.0, y=0.0, location_type="camp", capacity=-1)
    e.linkUp("alpha", "campC", d)
    n = {}
    keep = None
    for t in range(3):
        for i in range(2):
            g = ctx.choice(f"gender{i}@{t}", ["male", "female"]) if i == 0 else "male"
            add = ctx.flag(f"add{i}@{t}") if i else True
            if add and not (case["closing"] and t == 1):
                e.addAgent(A, {"gender": g})
                n[g] = n.get(g, 0) + 1
        if case["closing"] and t == 1:
            e.close_link("alpha", "campC", twoway=True)
        if case["closing"] and t == 2:
            e.reopen_link("alpha", "campC", twoway=True)
        for q in e.agents:
            ctx.assume(True)
        k = len(ctx.draws)
        e.evolve()
        for d_ in ctx.draws[k:]:
            if d_["kind"] == "random":
                ctx.assume(d_["value"] < 1)
        L = lines("links.out.0")
        if keep is None:
            keep = L[:1]
        ctx.check(L[:len(keep)] == keep, "kept", "earlier lines changed")
        new = L[len(keep):]
        keep = L
        if case["closing"] and t == 1:
            ctx.check(len(new) == 0, "count", "lines for closed links")
            continue
        total = [x.split(",") for x in new]
        # people returned by the closing enter again
        back = sum(n.values())
        got = [x for x in total if x[1:3] == ["alpha", "campC"]]
        ctx.check(len(got) >= 1, "count", "no line for the link")
        if case["closing"]:
            check_links(ctx, new, link_lines(ctx, e, t, lv, "location"), t)
            continue
        same(ctx, got[0][3], back, "link-count", f"people who entered up to day {t}")
        if lv > 1:
            ctx.check({x[4]: num(ctx, x[3]) for x in got[1:]} == {f"gender:{k}": v for k, v in n.items()}, "link-attribute", f"counts by attribute {got[1:]} for {n}")
        else:
            ctx.check(len(got) == 1, "count", "additional lines")


def off(ctx, case):
    w = ctx.world()
    conf(w, gran=case["gran"])
    e = w.flee.Ecosystem()
    A = e.addLocation(name="alpha", x=0.0, y=0.0, location_type="conflict_zone", pop=100)
    e.addLocation(name="campC", x=0.0, y=0.0, location_type="camp", capacity=-1)
    e.linkUp("alpha", "campC", ctx.real("d", 1, 500))
    e.addAgent(A, {})
    for t in range(2):
        e.evolve()
    ctx.check(lines("agents.out.0") is None and lines("links.out.0") is None, "file", "log files although logging is off")


def empty(ctx, case):
    """a first day without people, people later"""
    w = ctx.world()
    conf(w, agent=1, link=1)
    e = w.flee.Ecosystem()
    A = e.addLocation(name="alpha", x=0.0, y=0.0, location_type="conflict_zone", pop=100)
    e.addLocation(name="campC", x=0.0, y=0.0, location_type="camp", capacity=-1)
    e.linkUp("alpha", "campC", ctx.real("d", 1, 500))
    n = 0
    for t in range(3):
        if t and ctx.flag(f"add{t}"):
            e.addAgent(A, {"age": 1})
        e.evolve()
        n += len(e.agents)
        ctx.check(len(lines("agents.out.0")) == 1 + n, "count", f"lines up to day {t}")
        ctx.check(len(lines("links.out.0")) == 1 + 2 * (t + 1), "count", f"link lines up to day {t}")
