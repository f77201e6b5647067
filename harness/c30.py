"""C30: arrivals in camps and their journey times are counted for every day."""
from .lib import *

BOUNDS = ("3-4 people starting on any of 3 days or already somewhere on the way, a chain of three places with every pair of route lengths 1..700 km at 200 km a day, the middle place of every kind and one that changes its kind, people stopping or passing through, 4 days (6 thorough); "
          "every journey time people bring along 0..5000; short-stint rule off")
OUTSIDE = "parallel runs (each rank counts the people it holds); people sent back by a closed route"


def cases(tier):
    cs = []
    for mid in ("camp", "town", "idpcamp", "town>camp", "camp>town"):
        for stay in (True, False):
            for s in (0, 1, 2):
                cs.append(dict(mid=mid, stay=stay, start=s, level=1, days=4))
    if tier == "thorough":
        for mid in ("camp", "town", "town>camp"):
            for stay in (True, False):
                cs.append(dict(mid=mid, stay=stay, start=3, level=2, days=6))
    cs.append(dict(mid="camp", stay=True, start=0, level=0, days=2))
    return cs


def harness(ctx, case):
    w = ctx.world()
    mid = case["mid"].split(">")
    settings(w, {"log_levels": dict(camp=case["level"]),
                 "move_rules": dict(max_move_speed=200, max_walk_speed=200, awareness_level=1, camp_movechance=0.0 if case["stay"] else 1.0, idpcamp_movechance=0.0 if case["stay"] else 1.0,
                                    default_movechance=1.0, conflict_movechance=1.0, avoid_short_stints=False, capacity_buffer=1.0)})
    e = w.flee.Ecosystem()
    d1, d2 = ctx.real("d1", 1, 700), ctx.real("d2", 1, 700)
    A = e.addLocation(name="alpha", location_type="conflict_zone", pop=100)
    B = e.addLocation(name="beta", location_type=mid[0], capacity=(-1, 0, 50)[case["start"] % 3])
    C = e.addLocation(name="gamma", location_type="camp")
    e.linkUp("alpha", "beta", d1)
    e.linkUp("beta", "gamma", d2)
    e.remove_link("beta", "alpha", twoway=False)
    e.remove_link("gamma", "beta", twoway=False)
    l1, l2 = A.links[0], B.links[0]
    ref = []

    def come(loc, days=None):
        e.addAgent(loc, {})
        if days is not None:
            e.agents[-1].timesteps_since_departure = days
        ref.append(dict(place=loc, acc=0, days=0 if days is None else days))

    come(A)
    come(A, ctx.int("before", 0, 5000))
    come(C)
    e.agents[0].home_location = B
    arr, dur = [], []
    kind = mid[0]
    for t in range(case["days"]):
        if t == case["start"]:
            come(A)
        if t == 1 and len(mid) > 1:
            e.change_location_type("beta", mid[1])
            kind = mid[1]
        e.evolve()
        for d_ in ctx.draws:
            if d_["kind"] == "random":
                ctx.assume(d_["value"] < 1)
        n, total = 0, 0
        stops = kind in ("camp", "idpcamp") and case["stay"]
        for p in ref:
            moved = 0
            while True:
                if p["place"] is C or p["place"] is B and stops:
                    break
                if p["place"] in (A, B):
                    p["place"], p["acc"] = (l1 if p["place"] is A else l2), 0
                # a second route on the same day is travelled with a full day's speed (recorded finding of C03)
                p["acc"] = p["acc"] + 200
                moved = moved + 200
                length = d1 if p["place"] is l1 else d2
                if not p["acc"] > length:
                    break
                moved = moved + length - p["acc"]
                p["place"] = B if p["place"] is l1 else C
                if p["place"] is C or "camp" in kind:
                    n += 1
                    total = total + p["days"]
                if not moved < 200:
                    break
            p["days"] = p["days"] + 1
        arr.append(n)
        dur.append(total / n if n else 0)
        if case["level"] == 0:
            ctx.check(not getattr(e, "num_arrivals", []) and not getattr(e, "travel_durations", []), "off", "arrivals recorded although not asked for")
            continue
        ctx.check(len(e.num_arrivals) == t + 1 and len(e.travel_durations) == t + 1, "days", f"{len(e.num_arrivals)} and {len(e.travel_durations)} entries after day {t}")
        for k in range(t + 1):
            ctx.check_eq(e.num_arrivals[k], arr[k], "arrivals", f"arrivals of day {k}, seen after day {t}")
            if ctx.symbolic:
                ctx.check_eq(e.travel_durations[k], dur[k], "duration", f"mean journey time of day {k}, seen after day {t}")
            else:
                ctx.check(abs(e.travel_durations[k] - dur[k]) < 1e-6 * (1 + dur[k]), "duration", f"mean journey time of day {k}: {e.travel_durations[k]}, expected {dur[k]}")
    ctx.observe("arrivals", list(arr))
