"""C04: chance of leaving and the departure decision."""
from .lib import *
from . import sim

BOUNDS = ("one person per location; every location kind; all move-chance settings and explicit chances in [0,1]; population 0..20000, capacity -1..20000, "
          "population base in (0,50000], exponents 0, 0.5, 1, 2; every draw; 1-3 days; arrivals at towns on the first or second travel day with short-stint "
          "avoidance on and off, general speed 50..300 km, route speeds up to 2.5 x route length")
OUTSIDE = "other exponents; flood rules (C28); floating-point rounding"

KINDS = {None: "explicit", "camp": "camp_movechance", "idpcamp": "idpcamp_movechance", "conflict_zone": "conflict_movechance",
         "town": "default_movechance", "default": "default_movechance", "flood_zone": "default_movechance", "forwarding_hub": 1.0, "marker": 1.0,
         "conflict": "conflict_movechance", "Town": "default_movechance", "IDPcamp": "idpcamp_movechance"}
DEFAULTS = {"camp_movechance": 0.001, "idpcamp_movechance": 0.1, "conflict_movechance": 1.0, "default_movechance": 0.3}


def cases(tier):
    cs = [dict(t="kind", kind=k, set=True) for k in KINDS] + [dict(t="kind", kind=k, set=False) for k in ("camp", "idpcamp", "conflict_zone", "town", "flood_zone")]
    for s in (0.0, 0.5, 1.0, 2.0):
        cs.append(dict(t="scale", scale=s, kind=None))
        cs.append(dict(t="scale", scale=s, kind="town"))
    cs.append(dict(t="scale", scale=1.0, kind="conflict_zone", take=True))
    for k in ("camp", "idpcamp", "conflict_zone", "flood_zone", "forwarding_hub", "marker"):
        cs.append(dict(t="scale", scale=1.0, kind=k))
        cs.append(dict(t="scale", scale=1.0, kind=k, now=True))
    cs.append(dict(t="scale", scale=1.0, kind="town", now=True))
    for st in (True, False):
        for k in ("town", "conflict_zone", "flood_zone", "camp", "idpcamp"):
            cs.append(dict(t="stint", stint=st, kind=k, days=2))
            cs.append(dict(t="stint", stint=st, kind=k, days=1, vague=True))
        for k in ("forwarding_hub", "marker", "town", "camp"):
            cs.append(dict(t="stint", stint=st, kind=k, days=2, scaled=True))
    cs.append(dict(t="two"))
    cs.append(dict(t="several", days=2 if tier != "thorough" else 3))
    cs.append(dict(t="isolated"))
    return cs


def harness(ctx, case):
    {"kind": kind, "scale": scale, "stint": stint, "two": two, "several": several, "isolated": isolated}[case["t"]](ctx, case)


def randoms(ctx, n):
    return [x["value"] for x in ctx.draws[n:] if x["kind"] == "random"]


def departs(ctx, e, loc, people, chance):
    """one day: everybody standing at loc leaves iff their draw is below the chance"""
    n = len(ctx.draws)
    e.evolve()
    dr = randoms(ctx, n)
    for i, a in enumerate(people):
        left = a.location is not loc
        ctx.check(bool(a.travelling) == left, "departure", "travelling flag")
        if len(dr) >= len(people):
            ctx.check(iff(left, dr[i] < chance), "departure", f"set out ({left}) does not match draw < chance")
        else:
            ctx.check(iff(left, chance >= 1), "departure", "departure decided without a draw")
        ctx.observe("left", left)


def mkpair(ctx, w, loc):
    e = w.flee.Ecosystem()
    a = e.addLocation(name="A", x=0.0, y=0.0, **loc)
    e.addLocation(name="B", x=0.0, y=0.0, movechance=0.5, capacity=-1, pop=0)
    e.linkUp("A", "B", distance=1000.0)
    return e, a


def kind(ctx, case):
    w = ctx.world()
    k = case["kind"]
    mv = {}
    if case["set"]:
        mv = {n: ctx.real(n, 0, 1) for n in DEFAULTS}
    settings(w, {"move_rules": mv})
    loc = dict(capacity=ctx.int("cap", -1, 20000), pop=ctx.int("pop", 0, 20000), foreign=ctx.bool("foreign"), country="Land", region="Region")
    if k is None:
        exp = loc["movechance"] = ctx.real("explicit", 0, 1)
    else:
        loc["location_type"] = k
        loc["movechance"] = ctx.real("given", 0, 1)      # the kind decides, not this value
        exp = KINDS[k] if isinstance(KINDS[k], float) else mv.get(KINDS[k], DEFAULTS[KINDS[k]])
    e, a = mkpair(ctx, w, loc)
    ctx.check_eq(a.movechance, exp, "base-chance", f"chance of leaving of a {k}")
    kl = (k or "").lower()
    iscamp = "camp" in kl
    if kl == "flood_zone":
        ctx.check(not a.camp, "camp-rule", "flood zone treated as camp")
    else:
        ctx.check(iff(a.camp, bor(iscamp, exp < 0.005)), "camp-rule", "treated as camp iff declared or chance below 0.005")
    ctx.check(bool(a.idpcamp) == ("idp" in kl), "flags", "idpcamp")
    ctx.check(bool(a.forward) == (kl == "forwarding_hub"), "flags", "forward")
    ctx.check(bool(a.marker) == (kl == "marker"), "flags", "marker")
    ctx.check(bool(a.flood_zone) == (kl == "flood_zone"), "flags", "flood zone")
    ctx.check((a.conflict > 0) == kl.startswith("conflict"), "flags", "conflict")
    ctx.check(iff(a.town, band(kl in ("town", "default"), exp >= 0.005)), "flags", "town")
    e.addAgent(a, {})
    vague(ctx, e, locs=["A"])
    departs(ctx, e, a, list(e.agents), exp)


def power(ctx, b, s):
    if s == 0.0:
        return 1.0
    if s == 1.0:
        return b
    if s == 2.0:
        return b * b
    return b ** 0.5


def scale(ctx, case):
    w = ctx.world()
    base = ctx.real("base", 0, 50000, lo_open=True)
    mc = ctx.real("mc", 0, 1)
    key = {"camp": "camp_movechance", "idpcamp": "idpcamp_movechance", "conflict_zone": "conflict_movechance"}.get(case["kind"], "default_movechance")
    settings(w, {"move_rules": {"movechance_pop_base": base, "movechance_pop_scale_factor": case["scale"], key: mc},
                 "spawn_rules": {"take_from_population": bool(case.get("take"))}})
    pop = ctx.int("pop", 0, 20000)
    cap = ctx.int("cap", -1, 20000)
    loc = dict(capacity=cap, pop=pop)
    if case["kind"] is None:
        loc["movechance"] = mc
    else:
        loc["location_type"] = case["kind"]
    e, a = mkpair(ctx, w, loc)
    e.addAgent(a, {})
    if case.get("take"):
        pop = ite(pop > 0, pop - 1, pop)
    if case["kind"] in ("forwarding_hub", "marker"):
        mc = 1.0
    ctx.check_eq(a.movechance, mc, "base-chance", "base chance")
    a.numAgents = a.numAgents + ctx.int("others", 0, 50000)     # however many people are there
    a.foreign = ctx.bool("foreign")
    if case.get("now"):                                         # population and capacity of today count, not those of the start
        if not case.get("take"):
            pop = a.pop = ctx.int("pop.now", 0, 20000)
        cap = a.capacity = ctx.int("cap.now", -1, 20000)
    exp = mc * power(ctx, smax(pop, cap) * 1.0 / base, case["scale"])
    departs(ctx, e, a, list(e.agents), exp)


def stint(ctx, case):
    """mid-day arrival: certain onward move only from towns and only while the running index stays below one half"""
    w = ctx.world()
    mx = ctx.real("MaxMoveSpeed", 50, 300)
    v = ctx.real("v", 0, 250, lo_open=True)
    scaled = {"movechance_pop_base": 4.0, "movechance_pop_scale_factor": 1.0} if case.get("scaled") else {}
    q = 1.0 if scaled else 0.25
    settings(w, {"move_rules": {"avoid_short_stints": case["stint"], "max_move_speed": mx, **scaled, "default_movechance": q, "conflict_movechance": q,
                                "camp_movechance": q, "idpcamp_movechance": q}})
    e = w.flee.Ecosystem()
    A = e.addLocation(name="A", x=0.0, y=0.0, movechance=1.0, capacity=-1, pop=4)
    B = e.addLocation(name="B", x=0.0, y=0.0, location_type=case["kind"], capacity=-1, pop=1, foreign=ctx.bool("foreign"))
    e.addLocation(name="C", x=0.0, y=0.0, movechance=0.5, capacity=-1, pop=0)
    e.linkUp("A", "B", distance=100.0, attributes={"max_move_speed": v})
    e.linkUp("B", "C", distance=1000.0, attributes={"max_move_speed": 1.0, "walk_probability": 0.5})
    e.close_link("B", "A", twoway=False)
    e.addAgent(A, {})
    a = e.agents[0]
    AB = link_between(e, "A", "B")
    if case.get("vague"):
        vague(ctx, e, locs=["B"])
        B.capacity = -1        # a full camp may end the journey (C08)
    acc = 0.0
    index = a.recent_travel_distance
    start = a.places_travelled
    for d in range(case["days"]):
        n = len(ctx.draws)
        e.evolve()
        if a.location is AB and a.places_travelled == start:
            acc = acc + v
            index = (index + v / mx) / 2.0
            continue
        moved = 100.0 - acc
        if a.location is B or (hasattr(a.location, "endpoint") and a.location.startpoint is B):
            onward = a.location is not B
            more = moved < v
            force = band(case["stint"] and case["kind"] == "town", (index + moved / mx) / 2.0 < 0.5)
            day = ctx.draws[n:]
            ks = [i for i, x in enumerate(day) if x["kind"] == "choices"]
            if onward and case["kind"] == "marker":      # the plan exists already: nothing is chosen, the last draw is about walking
                before = [x["value"] for x in day if x["kind"] == "random"][:-1]
            elif onward:
                before = [x["value"] for x in day[:ks[-1]] if x["kind"] == "random"]
            else:
                before = [x["value"] for x in day if x["kind"] == "random"]
            last = before[-1] if before else 0.0
            exp = band(more, bor(force, last < 0.25))
            ctx.check(iff(onward, exp), "onward", "onward move on the day of arrival")
        return


def two(ctx, case):
    """two people at the same place decide independently"""
    w = ctx.world()
    mc = ctx.real("mc", 0.01, 1)
    settings(w, {"move_rules": {"default_movechance": mc}})
    e, a = mkpair(ctx, w, dict(location_type="town", capacity=-1, pop=0))
    e.addAgent(a, {})
    e.addAgent(a, {})
    n = len(ctx.draws)
    e.evolve()
    dr = randoms(ctx, n)
    left = [p.location is not a for p in e.agents]
    if len(dr) >= 2:
        k = sum(1 for x in left if x)
        below = ite(dr[0] < mc, 1, 0) + ite(dr[1] < mc, 1, 0)
        ctx.check_eq(below, k, "departure", "number of people who set out vs draws below the chance")
    else:
        ctx.check(iff(left[0] and left[1], mc >= 1), "departure", "decided without draws")


def several(ctx, case):
    """staying people draw anew every day"""
    w = ctx.world()
    mc = ctx.real("mc", 0.01, 1)
    settings(w, {})
    e, a = mkpair(ctx, w, dict(movechance=mc, capacity=-1, pop=0))
    e.addAgent(a, {})
    for d in range(case["days"]):
        if e.agents[0].location is a:
            departs(ctx, e, a, list(e.agents), mc)
        else:
            e.evolve()


def isolated(ctx, case):
    """without a route nobody leaves"""
    w = ctx.world()
    settings(w, {})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="A", x=0.0, y=0.0, movechance=ctx.real("mc", 0, 1), capacity=-1, pop=0)
    e.addAgent(a, {})
    e.evolve()
    ctx.check(e.agents[0].location is a and not e.agents[0].travelling, "no-route", "left without a route")
