"""C03: daily travel budget and exact booking of distances."""
from .lib import *
from . import c02, sim

BOUNDS = ("one person on networks of 2-3 locations, 2-4 days, up to 3 routes per day; symbolic general, walking and route speeds, walking chance "
          "and draws; with and without on-foot start and short-stint avoidance; closures on any day")
OUTSIDE = ("longer journeys; floating-point rounding; the running index is claimed to stay within 0..1 only while no route's own speed exceeds the "
           "general maximum")

L2 = [{}, {}]
L3 = [{}, {}, {}]


def exc_key(case, e):
    return None


def cases(tier):
    T = tier == "thorough"
    own = [["A", "B", 100.0, {"max_move_speed": "R:0:250"}]]
    slow = [["A", "B", 100.0, {"max_move_speed": "R:0:100"}]]
    gen = [["A", "B", 100.0]]
    line = [["A", "B", 100.0], ["B", "C", 60.0, {"max_move_speed": "R:0:100"}]]
    cl = [["none"], ["close_link", "A", "B", True], ["close_link", "A", "B", False]]
    foot = {"move_rules": {"start_on_foot": True}}
    short = {"move_rules": {"avoid_short_stints": True}}
    town = [{"location_type": "town"}] * 3
    cs = [
        dict(locs=L2, edges=own, at="A", days=3),
        dict(locs=L2, edges=gen, at="A", days=3, speed="R:0:120"),
        dict(locs=L2, edges=gen, at="A", days=4, speed="R:0:99", mc=1.0),
        dict(locs=L2, edges=gen, at="A", days=3, speed="R:0:120", walk="R:0:120", cfg=foot),
        dict(locs=L2, edges=own, at="A", days=3, speed=200.0, walk="R:0:150", cfg=foot, mc=1.0),
        dict(locs=L3, edges=line, at="A", days=2, speed="R:0:180"),
        dict(locs=town, edges=line, at="A", days=2, speed="R:0:180", cfg=short),
        dict(locs=town[:2], edges=gen, at="A", days=3, speed="R:0:150", cfg=short),
        dict(locs=L2, edges=slow, at="A", days=3, ops=[cl, cl], mc=1.0),
        dict(locs=L2, edges=own, at="A", days=2, ops=[cl], mc=1.0),
        dict(locs=L2, edges=gen, at="A", days=2, mc=1.0, speed="R:0:150", walk="R:0:150", chance="r:0:1"),
        dict(locs=L2, edges=own, at="A", days=2, mc=1.0, speed=200.0, walk="R:0:90", chance="r:0:1"),
        dict(locs=L2, edges=gen, at="A", days=2, mc=1.0, speed="R:0:90", walk="R:0:90", chance="r:0:1", cfg=foot),
        dict(locs=L2, edges=slow, at="A", days=2, mc=1.0, walk="R:0:100", chance="r:0:1", ops=[cl]),
    ]
    K = ["town", "camp", "idpcamp", "conflict_zone", "marker", "forwarding_hub", "flood_zone"]
    for i, k in enumerate(K):
        cs.append(dict(locs=[{"location_type": k}, {"location_type": K[(i + 3) % 7]}], edges=slow, at="A", days=3, ops=[[["none"], ["close_link", "A", "B", True]]], vague=True,
                       cfg=foot, speed=100.0, walk="R:0:100"))
        cs.append(dict(locs=[{}, {"location_type": k}, {}], edges=line, at="A", days=2, vague=["B"], mc=1.0, speed="R:0:180"))
        cs.append(dict(locs=[{}, {"location_type": k}, {}], edges=line, at="A", days=2, vague=["B"], mc=1.0, speed="R:0:180", cfg=short))
        cs.append(dict(locs=[{}, {"location_type": k}, {"location_type": K[(i + 2) % 7]}], edges=[slow[0], ["B", "C", 60.0, {"max_move_speed": "R:0:30"}]], at="A", days=3, mv1=True, plan=["B", "C"],
                       ops=[[["none"], ["close_link", "A", "B", True], ["close_location", "B", True]]]))
    if T:
        cs += [
            dict(locs=L2, edges=own, at="A", days=4),
            dict(locs=L3, edges=line, at="A", days=3, speed="R:0:180"),
            dict(locs=town, edges=line, at="A", days=3, speed="R:0:180", cfg=short),
            dict(locs=L2, edges=slow, at="A", days=4, ops=[cl, [["none"], ["reopen_link", "A", "B", True]], cl]),
            dict(locs=L2, edges=gen, at="A", days=3, mc=1.0, speed="R:0:150", walk="R:0:100", chance="r:0:1"),
        ]
    return cs


def harness(ctx, case):
    if "chance" in case:
        return walking(ctx, case)
    c02.run(ctx, case, {"books"}, logged=True, cfg={"log_levels": {"agent": 1}})


def walking(ctx, case):
    """walking chance of the route: the speed of the day is the walking speed exactly if the draw falls below it"""
    w = ctx.world()
    mx = sim.sym(ctx, "MaxMoveSpeed", case.get("speed", 360.0))
    wk = sim.sym(ctx, "MaxWalkSpeed", case["walk"])
    st = {"move_rules": dict((case.get("cfg") or {}).get("move_rules") or {}, max_move_speed=mx, max_walk_speed=wk)}
    settings(w, st)
    p = sim.sym(ctx, "p", case["chance"])
    edges = [[a, b, d, dict(*x, walk_probability=p)] for a, b, d, *x in case["edges"]]
    c = dict(case, edges=edges, locs=[dict({"movechance": 1.0}, **l) for l in case["locs"]])
    e = sim.build(ctx, w, c)
    e.addAgent(loc_by_name(e, "A"), {})
    a = e.agents[0]
    foot = bool(st["move_rules"].get("start_on_foot"))
    covered = 0.0          # on the current route
    index = 0.0
    at = a.location
    done = 0
    for d in range(case["days"]):
        n = len(ctx.draws)
        prev = a.location
        e.evolve()
        dr = [x["value"] for x in ctx.draws[n:] if x["kind"] == "random"]
        now = a.location
        moved_legs = sum(1 for x in ctx.draws[n:] if x["kind"] == "choices")
        if hasattr(prev, "endpoint"):
            link, acc = prev, covered
            walkdraw = dr[0] if dr else None
        else:
            if not hasattr(now, "endpoint") and now is prev and not moved_legs:
                ctx.check(False, "leave", "a person with certain departure did not leave")
                return
            link, acc = prev.links[0], 0.0
            walkdraw = dr[-1] if len(dr) <= 2 else dr[1]
        v = link.attributes.get("max_move_speed", mx)
        if foot and done == 0:
            v = wk
        walks = (walkdraw < p) if walkdraw is not None else p >= 1
        v = ite(walks, wk, v)
        L = link.get_distance()
        still = now is link and a.places_travelled == 1 + done
        ctx.check(iff(still, acc + v <= L), "walking-speed", "advance is not the speed that applies (walking chance vs draw)")
        if not still:
            return                       # several routes on one day are covered by the other cases
        covered = acc + v
        index = (index + v / mx) / 2.0
        ctx.check_eq(a.distance_travelled_on_link, covered, "on-route", "distance on the current route")
        ctx.check_eq(a.recent_travel_distance, index, "index", "recent travel index")
        if d < len(case.get("ops") or []):
            sim.op(e, ctx.choice("op%d" % d, case["ops"][d]))
