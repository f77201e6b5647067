"""C06: route weights follow the documented formula, per traveller."""
import itertools
import math

from .lib import *

BOUNDS = ("routes of up to 3 links with all lengths, location scores, softenings (scores and softenings in [0,50], lengths in (0,1000]), given capacities with every "
          "occupancy, weight and distance powers 0, 0.5, 1, 2; each traveller rule alone and in pairs, ages 0..90, both genders, populations 0..10^6 (given populations with symbolic group sizes for the ethnic rules), "
          "group sizes, population powers 0, 0.5, 1, 2; distances to home from given coordinates with powers 0, 0.5, 1, 2")
OUTSIDE = "other exponents; symbolic coordinates (C27); flood rules (C28); locations without inhabitants for the ethnic share; floating-point rounding"

RULES = ["ChildrenAvoidHazards", "BoysTakeRisk", "MatchCampEthnicity", "MatchTownEthnicity", "MatchConflictEthnicity"]


def cases(tier):
    T = tier == "thorough"
    P = (0.0, 0.5, 1.0, 2.0)
    cs = []
    for wp in P:
        for dp in P:
            cs.append(dict(wp=wp, dp=dp, hops=1 if not T and (wp, dp) not in ((1.0, 1.0), (1.0, 2.0), (2.0, 1.0)) else 3, rules={}))
    cs.append(dict(wp=1.0, dp=1.0, hops=2, rules={}, cap=True))
    cs.append(dict(wp=2.0, dp=1.0, hops=1, rules={}, cap=True))
    cs.append(dict(wp=1.0, dp=1.0, hops=1, rules={}, cap=True, buf=True))
    kinds = ("camp", "town", "conflict", "flood_zone", "idpcamp")
    single = [{"ChildrenAvoidHazards": True}, {"ChildrenAvoidHazards": True, "BoysTakeRisk": True}, {"BoysTakeRisk": True},
              {"MatchCampEthnicity": True}, {"MatchTownEthnicity": True}, {"MatchConflictEthnicity": True}, {"home": 1.0}, {"home": 0.5}, {"home": 2.0},
              {"home": 0.0}, {"pop": 1.0}, {"pop": 0.5}, {"pop": 2.0}, {"pop": 0.0}]
    for r in single:
        for k in kinds:
            if k == "idpcamp" and not any(x in r for x in ("MatchCampEthnicity", "pop")):
                continue
            cs.append(dict(wp=1.0, dp=1.0, hops=1, rules=r, kind=k))
    combos = [{"ChildrenAvoidHazards": True, "home": 1.0}, {"ChildrenAvoidHazards": True, "BoysTakeRisk": True, "MatchTownEthnicity": True, "pop": 1.0},
              {"MatchCampEthnicity": True, "MatchTownEthnicity": True, "MatchConflictEthnicity": True, "home": 2.0, "pop": 1.0},
              {"ChildrenAvoidHazards": True, "MatchConflictEthnicity": True}]
    for r in combos:
        for k in ("camp", "town", "conflict"):
            cs.append(dict(wp=1.0, dp=1.0, hops=2, rules=r, kind=k))
    if T:
        for r in combos + single:
            for k in kinds:
                cs.append(dict(wp=2.0, dp=2.0, hops=2, rules=r, kind=k))
    cs.append(dict(t="default", rules={}))
    for m in ([2], [1, 0], [0, 1], [0, 2], [1, 2], [3, 0]):
        cs.append(dict(wp=1.0, dp=1.0, hops=len(m), rules={}, marks=m))
    cs.append(dict(wp=2.0, dp=1.0, hops=2, rules={"home": 1.0}, kind="town", marks=[2, 1]))
    for ab in ("B", "A", "BC"):
        cs.append(dict(wp=1.0, dp=1.0, hops=2, rules={"home": 1.0}, kind="town", abroad=ab))
        cs.append(dict(wp=1.0, dp=1.0, hops=2, rules={"ChildrenAvoidHazards": True, "BoysTakeRisk": True, "MatchConflictEthnicity": True}, kind="conflict", abroad=ab))
        cs.append(dict(wp=1.0, dp=1.0, hops=2, rules={"pop": 1.0, "MatchTownEthnicity": True}, kind="forwarding_hub", abroad=ab))
    cs.append(dict(wp=1.0, dp=1.0, hops=3, rules={}, forced=True))
    cs.append(dict(wp=1.0, dp=1.0, hops=2, rules={}, marks=[1, 1], forced=True))
    cs.append(dict(wp=1.0, dp=2.0, hops=2, rules={"ChildrenAvoidHazards": True}, kind="camp", marks=[0, 2]))
    return cs


def power(b, s):
    if s == 0.0:
        return 1.0
    if s == 1.0:
        return b
    if s == 2.0:
        return b * b
    return b ** 0.5


def capfactor(n, cap, buf, scaling):
    c = cap * scaling
    if c < 1 or n <= buf * c:
        return 1.0
    if n >= c:
        return 0.0
    return (c - n) / (c * (1.0 - buf))


def haversine(a, b):
    la, lb = math.radians(a[1]), math.radians(b[1])
    h = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b[0] - a[0]) / 2) ** 2
    return 2 * 6371.0 * math.atan2(math.sqrt(h), math.sqrt(1 - h))


def harness(ctx, case):
    w = ctx.world()
    r = case["rules"]
    mv = {}
    if case.get("t") == "default":
        ws, ds, wp, dp = 0.0, 10.0, 1.0, 1.0
        hops = 2
    else:
        wp, dp, hops = case["wp"], case["dp"], case["hops"]
        ws = ctx.real("weight_softening", 0, 50)
        ds = ctx.real("distance_softening", 0, 50)
        mv = dict(weight_softening=ws, softening=ds, weight_power=wp, distance_power=dp)
    mv["awareness_level"] = hops
    for k in RULES:
        if k in r:
            mv[k] = True
    if "home" in r:
        mv["stay_close_to_home"] = True
        mv["home_distance_power"] = r["home"]
    if "pop" in r:
        mv["use_pop_for_loc_weight"] = True
        mv["pop_power_for_loc_weight"] = r["pop"]
    buf, scaling = 0.9, 1.0
    if case.get("cap"):
        if case.get("buf"):
            buf = mv["capacity_buffer"] = ctx.real("buffer", 0, 1, lo_open=True, hi_open=True)
            scaling = mv["capacity_scaling"] = 2.0
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    names = ["A", "B", "C", "D"][:hops + 1]
    xy = {"A": (0.0, 0.0), "B": (3.0, 1.0), "C": (0.001, 0.0), "D": (40.0, 10.0)}
    kind = {"B": case.get("kind"), "C": "town", "D": "camp"}
    score, pop, share, occ, cap = {}, {}, {}, {}, {}
    eth = any(x.startswith("Match") for x in r)
    for nm in names:
        kw = {}
        if nm != "A" and "kind" in case:
            kw["location_type"] = kind[nm]
        else:
            kw["movechance"] = 0.5
        if eth:
            pop[nm] = {"A": 0, "B": 400, "C": 1, "D": 100000}[nm]
        else:
            pop[nm] = ctx.int("pop" + nm, 0, 1000000) if "pop" in r and nm != "A" else 0
        cap[nm] = ctx.choice("cap" + nm, [0, 1, 10, 1000]) if case.get("cap") and nm != "A" else -1
        at = {}
        if eth:
            share[nm] = at["groupX"] = ctx.real("share" + nm, 0, pop[nm])
        if kw.get("location_type") == "conflict":
            at["conflict_intensity"] = 0.25
        country = "Abroad" if nm in case.get("abroad", "") else "Land"
        e.addLocation(name=nm, x=xy[nm][0], y=xy[nm][1], capacity=cap[nm], pop=pop[nm], attributes=at, country=country, region=nm, **kw)
        loc = loc_by_name(e, nm)
        score[nm] = ctx.real("score" + nm, 0, 50)
        loc.setScore(1, score[nm])
        occ[nm] = ctx.int("occ" + nm, 0, 6000) if case.get("cap") and nm != "A" else 0
        loc.numAgents = occ[nm]
    home = e.addLocation(name="H", country="Land", region="B", x=2.0, y=1.5, movechance=0.5, capacity=-1, pop=0)
    dist = {}
    marks = list(case.get("marks", []))
    for a, b in zip(names, names[1:]):
        dist[b] = ctx.real("d" + b, 0, 1000, lo_open=True)
        first = dist[b]
        for i in range(marks.pop(0) if marks else 0):
            m = f"M{i}{b}"
            e.addLocation(name=m, x=9.0, y=9.0, location_type="marker", capacity=-1, pop=0)
            e.linkUp(a, m, distance=first)
            first = ctx.real("d" + m, 0, 1000, lo_open=True)
            dist[b] = dist[b] + first
            a = m
        e.linkUp(a, b, distance=first)
        if case.get("forced") and a != "A":
            link_between(e, a, b).forced_redirection = True
    attrs = {}
    age = gender = None
    if "ChildrenAvoidHazards" in r or "BoysTakeRisk" in r:
        age = ctx.int("age", 0, 90)
        gender = ctx.choice("gender", ["male", "female"])
        attrs = {"age": age, "gender": gender}
    if eth:
        attrs["ethnicity"] = "groupX"
    e.addAgent(home, attrs)
    p = e.agents[0]
    p.location = loc_by_name(e, "A")
    # whatever the formula does not mention is arbitrary
    for loc in e.locations:
        loc.foreign = ctx.bool(loc.name + ".foreign")
        loc.numAgentsSpawned = ctx.int(loc.name + ".spawned", 0, 5000)
        if "pop" not in r and not eth:
            loc.pop = ctx.int(loc.name + ".pop", 0, 5000)
        if loc is not home:
            loc.setScore(0, ctx.real(loc.name + ".score0", 0, 50))
        if not case.get("cap"):
            loc.numAgents = ctx.int(loc.name + ".people", 0, 5000)
    if age is None:
        p.attributes["age"] = ctx.int("age", 0, 90)
        p.attributes["gender"] = "male"
    p.timesteps_since_departure = ctx.int("days", 0, 5000)
    p.places_travelled = ctx.int("places", 1, 100)
    p.recent_travel_distance = ctx.real("recent", 0, 1)
    now = ctx.int("now", 0, 5000)
    if ctx.symbolic:
        ctx.assume(ds + dist["B"] > 0)
    wts, rts = w.moving.selectRoute(p, time=now, return_all_routes=True)
    got = {rt[-1]: x for rt, x in zip(rts, wts)}
    ctx.check(len(rts) == hops and set(got) == set(names[1:]), "routes", f"unexpected routes {rts}")
    total = 0.0
    for nm in names[1:]:
        total = total + dist[nm]
        s = score[nm]
        if "ChildrenAvoidHazards" in r:
            s = ite(age < 19, s * s, s)
            if "BoysTakeRisk" in r and gender == "male":
                s = ite(age > 14, 1.0, s)
        if "home" in r:
            s = s * (1.0 / (max(1.0, haversine(xy[nm], (2.0, 1.5))) ** r["home"]))
        k = kind[nm] if "kind" in case else None
        camp = k is not None and "camp" in k
        conflict = k == "conflict"
        m = "MatchCampEthnicity" if camp else ("MatchConflictEthnicity" if conflict else "MatchTownEthnicity")
        if m in r:
            s = s * (share[nm] / pop[nm] * 10.0)
        if "pop" in r and not camp:
            s = s * power(smax(1.0, pop[nm] * 1.0), r["pop"])
        exp = (ws + s) / power(ds + total, dp) * capfactor(occ[nm], cap[nm], buf, scaling)
        ctx.check_eq(got[nm], power(exp, wp), "weight", f"weight of the route to {nm} ({k}, rules {sorted(r)})")
        ctx.observe("w" + nm, got[nm])
