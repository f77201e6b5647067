"""C08: the capacity factor, and journeys to full camps."""
from .lib import *

BOUNDS = ("one location with every capacity (-1..100000, symbolic), occupancy 0..200000, buffers 0.25-0.75 (symbolic in (0,1) and the default 0.9 with given capacities), scalings 0.5, 1, 2.5 and symbolic in [0,4] with given capacities; "
          "journeys of 1-3 links planned before or on the day, on the first, second or third day, towards a camp, IDP camp, auto-camp, town, conflict zone or flood zone "
          "whose occupancy may change every day")
OUTSIDE = "symbolic capacity together with symbolic scaling; several people competing for the last place on the same day; floating-point rounding"

CAPS = [-1, 0, 1, 2, 10, 1000]


def cases(tier):
    T = tier == "thorough"
    cs = [dict(t="factor", scale=s, buf=b) for s in (1.0, 0.5, 2.5) for b in (0.75, 0.5, 0.25)]
    cs += [dict(t="factor", scale=s, buf="sym", cap=c) for s in (1.0, 2.5) for c in CAPS]
    cs += [dict(t="factor", scale="sym", cap=c, buf=b) for c in CAPS for b in (0.75, 0.5)]
    cs += [dict(t="monotone", scale=s, cap=c) for s in (1.0, 2.5) for c in (1, 10, 1000)]
    cs += [dict(t="default", cap=c) for c in CAPS]
    for k in ("camp", "idpcamp", None, "town", "conflict_zone", "flood_zone", "auto"):
        for hops in (1, 2, 3):
            for plan in (True, False):
                for days in (1, 2, 3) if T or hops > 1 else (1,):
                    cs.append(dict(t="journey", kind=k, hops=hops, plan=plan, days=days))
    for k in ("camp", "idpcamp", "town"):
        for m in ("camp", "idpcamp"):
            cs.append(dict(t="journey", kind=k, hops=2, plan=True, days=3, mid=m))
            cs.append(dict(t="journey", kind=k, hops=3, plan=True, days=2, mid=m))
        cs.append(dict(t="journey", kind=k, hops=2, plan=True, days=3, mid="marker"))
        cs.append(dict(t="journey", kind=k, hops=2, plan=False, days=2, mid="marker"))
        for hops in (1, 2):
            cs.append(dict(t="journey", kind=k, hops=hops, plan=True, days=2, forced=True))
        cs.append(dict(t="journey", kind=k, hops=2, plan=False, days=1, forced=True))
    return cs


def expected(n, cap, buf, scale):
    c = cap * scale
    return c, ite(bor(c < 1, n <= buf * c), 1.0, ite(n >= c, 0.0, 2.0))


def harness(ctx, case):
    {"factor": factor, "monotone": monotone, "default": default, "journey": journey}[case["t"]](ctx, case)


def factor(ctx, case):
    w = ctx.world()
    buf = case["buf"] if case["buf"] != "sym" else ctx.real("buffer", 0, 1, lo_open=True, hi_open=True)
    scale = case["scale"] if case["scale"] != "sym" else ctx.real("scaling", 0, 4)
    cap = case["cap"] if "cap" in case else ctx.int("cap", -1, 100000)
    settings(w, {"move_rules": {"capacity_buffer": buf, "capacity_scaling": scale}})
    e = w.flee.Ecosystem()
    kind = ctx.choice("kind", ["camp", "idpcamp", "town", "conflict_zone", "flood_zone", "forwarding_hub"]) if case["buf"] in (0.5, "sym") else "camp"
    a = e.addLocation(name="A", x=0.0, y=0.0, location_type=kind, capacity=cap, pop=0)
    vague(ctx, e)
    a.capacity = cap
    n = ctx.int("occupancy", 0, 200000)
    a.numAgents = n
    f = w.moving.getCapMultiplier(a, ctx.int("numOnLink", 0, 1000))
    c = cap * scale
    ctx.observe("factor", f)
    if c < 1:
        ctx.check_eq(f, 1.0, "unlimited", "a location without a limit is never throttled")
    elif n <= buf * c:
        ctx.check_eq(f, 1.0, "below-buffer", "factor up to the buffer share")
    elif n >= c:
        ctx.check_eq(f, 0.0, "full", "factor at or above the scaled capacity")
    else:
        ctx.check_eq(f * (c * (1.0 - buf)), c - n, "linear", "factor between buffer and capacity")


def monotone(ctx, case):
    w = ctx.world()
    settings(w, {"move_rules": {"capacity_scaling": case["scale"]}})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="A", x=0.0, y=0.0, location_type="camp", capacity=case["cap"], pop=0)
    n = ctx.int("n", 0, 5000)
    m = ctx.int("m", 0, 5000)
    ctx.assume(n <= m)
    a.numAgents = n
    f = w.moving.getCapMultiplier(a, 1)
    a.numAgents = m
    g = w.moving.getCapMultiplier(a, 1)
    ctx.check(f >= g, "monotone", "more people, larger factor")
    ctx.check(band(f >= 0, f <= 1), "range", "factor outside 0..1")


def default(ctx, case):
    w = ctx.world()
    settings(w, {})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="A", x=0.0, y=0.0, location_type="camp", capacity=case["cap"], pop=0)
    n = ctx.int("n", 0, 5000)
    a.numAgents = n
    f = w.moving.getCapMultiplier(a, 1)
    cap = case["cap"]
    if cap < 1 or n <= 0.9 * cap:
        ctx.check_eq(f, 1.0, "below-buffer", "default buffer 0.9")
    elif n >= cap:
        ctx.check_eq(f, 0.0, "full", "full")
    else:
        ctx.check_eq(f * (0.1 * cap), cap - n, "linear", "linear")


def journey(ctx, case):
    """one person on a chain A-B-..-Z of one-way links"""
    w = ctx.world()
    hops = case["hops"]
    k = case["kind"]
    settings(w, {"move_rules": {"awareness_level": 3, "max_move_speed": 100.0, "capacity_buffer": 0.75, "default_movechance": 1.0, "conflict_movechance": 1.0,
                                "avoid_short_stints": False}})
    e = w.flee.Ecosystem()
    names = ["A", "B", "C", "D"][:hops + 1]
    for nm in names[:-1]:
        if case.get("mid") == "marker" and nm != "A":
            e.addLocation(name=nm, x=0.0, y=0.0, location_type="marker", capacity=-1, pop=0).movechance = 0.5
        elif case.get("mid") and nm != "A":       # camps on the way, full or not, do not matter
            e.addLocation(name=nm, x=0.0, y=0.0, location_type=case["mid"], capacity=20, pop=0).movechance = 0.5
            loc_by_name(e, nm).numAgents = ctx.int("people" + nm, 0, 40)
        else:
            e.addLocation(name=nm, x=0.0, y=0.0, movechance=1.0 if nm == "A" else 0.5, capacity=-1, pop=0)
    last = names[-1]
    kw = dict(location_type=k) if k not in (None, "auto") else dict(movechance=0.5 if k is None else 0.001)
    z = e.addLocation(name=last, x=0.0, y=0.0, capacity=200, pop=0, **kw)
    camp = k in ("camp", "idpcamp", "auto")
    for a, b in zip(names, names[1:]):
        e.linkUp(a, b, distance=100.0, **({"forced_redirection": True} if case.get("forced") else {}))
        e.close_link(b, a, twoway=False)
    e.addAgent(loc_by_name(e, "A"), {})
    p = e.agents[0]
    if case["plan"]:
        vague(ctx, e, locs=[last])
        z.capacity = 200
        p.route = list(names[1:])
    for d in range(case["days"]):
        n = ctx.int(f"occupancy{d}", 0, 300)
        z.numAgents = n
        at = p.location
        if at is z:
            break
        plan = list(p.route)
        before = {id(l): l.cumNumAgents for l in all_links(e)}
        nd = len(ctx.draws)
        crowd = {nm: loc_by_name(e, nm).numAgents for nm in names[1:-1]}
        e.evolve()
        entered = [l for l in all_links(e) if l.cumNumAgents > before[id(l)]]
        draws = ctx.draws[nd:]
        if not plan:
            ch = [x for x in draws if x["kind"] == "choices" and x.get("result")]
            if ch:
                plan = list(ch[0]["result"][0])
        full = band(camp, plan[-1] == last, n > 175) if plan else False
        if case.get("mid") in ("camp", "idpcamp") and plan and plan[-1] in crowd:
            full = crowd[plan[-1]] * 2 > 35
        # factor below one half: (200 - n)/50 < 1/2
        ctx.check(implies(full, len(entered) == 0), "full-camp", f"set out ({[l.name for l in entered]}) although the destination of {plan} is a full camp")
        rnd = [x["value"] for x in draws if x["kind"] == "random"]
        if not isinstance_link(at) and plan and rnd:
            chance = 1.0 if at.name == "A" else 0.5
            left = p.location is not at
            ctx.check(iff(left, band(bnot(full), rnd[0] < chance)), "full-camp", f"left={left} on the journey {plan}")
            if not left:
                ctx.check(p.travelling is False, "dropped", "travelling while staying")
                if rnd[0] < chance:
                    ctx.check(len(p.route) == 0, "dropped", "the journey must be dropped")
        ctx.observe("entered", len(entered))


def isinstance_link(x):
    return hasattr(x, "endpoint")
