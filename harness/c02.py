"""C02: people move only along open routes and arrive only when they covered them."""
from .lib import *
from . import sim, travel

BOUNDS = ("one person (people do not interact on the way) on networks of 2-3 locations, 2-4 days, up to 3 routes per day; symbolic route "
          "speeds, general and walking speed; every outcome of every draw; closures and reopenings chosen freely between days")
OUTSIDE = "longer journeys, more locations, more than three routes on one day; floating-point rounding"

L2 = [{}, {}]
L3 = [{}, {}, {}]


def cases(tier):
    T = tier == "thorough"
    pair = [["A", "B", 100.0, {"max_move_speed": "R:0:250"}]]
    slow = [["A", "B", 100.0, {"max_move_speed": "R:0:100"}]]
    gen = [["A", "B", 100.0]]
    line = [["A", "B", 100.0, {"max_move_speed": "R:0:110"}], ["B", "C", 60.0, {"max_move_speed": "R:0:100"}]]
    symd = [["A", "B", "r:40:300", {}]]
    tri = [["A", "B", 100.0, {"max_move_speed": "R:0:110"}], ["B", "C", 60.0, {"max_move_speed": "R:0:70"}], ["A", "C", 80.0, {"max_move_speed": 50.0}]]
    cl = [["none"], ["close_link", "A", "B", True], ["close_link", "A", "B", False], ["close_link", "B", "A", False], ["close_location", "A", False]]
    re_ = [["none"], ["reopen_link", "A", "B", True], ["reopen_link", "A", "B", False]]
    aw = {"move_rules": {"awareness_level": 2}}
    cs = [
        dict(locs=L2, edges=pair, at="A", days=3),
        dict(locs=L2, edges=slow, at="A", days=4, mc=1.0),
        dict(locs=L2, edges=symd, at="A", days=3, mc=1.0, cfg={"move_rules": {"max_move_speed": 100.0}}),
        dict(locs=L2, edges=gen, at="A", days=3, speed="R:0:120"),
        dict(locs=L2, edges=gen, at="A", days=3, speed="R:0:120", walk="R:0:120", cfg={"move_rules": {"start_on_foot": True}}),
        dict(locs=L3, edges=line, at="A", days=2),
        dict(locs=L3, edges=line, at="B", days=2),
        dict(locs=L3, edges=line, at="A", days=2, cfg=aw),
        dict(locs=L3, edges=tri, at="A", days=2, mc=1.0),
        dict(locs=L2, edges=slow, at="A", days=3, ops=[cl, re_], mc=1.0),
        dict(locs=L2, edges=pair, at="A", days=3, ops=[cl], mc=1.0),
        dict(locs=L2, edges=slow, at="A", days=3, ops=[[["none"]], cl]),
        dict(locs=L3, edges=[["A", "B", 100.0, {"max_move_speed": "R:60:110"}], ["B", "C", 60.0, {"max_move_speed": 30.0}]], at="A", days=4,
             cfg=aw, ops=[[["none"]], [["none"], ["close_link", "B", "C", True], ["close_location", "C", True]]], target="C"),
        dict(locs=[{}, {"location_type": "marker"}, {}], edges=line, at="A", days=2, mc=1.0),
        dict(locs=[{}, {"location_type": "camp"}, {"location_type": "town"}], edges=tri, at="A", days=2, mc=1.0, cfg={"log_levels": {"camp": 1, "agent": 2}}),
        dict(locs=L3, edges=tri, at="A", days=2, mc=1.0, cfg={"move_rules": {"awareness_level": 0}}),
        dict(locs=L3, edges=line, at="A", days=2, mc=1.0, cfg={"move_rules": {"awareness_level": 2, "fixed_routes": True}}),
    ]
    K = ["town", "camp", "idpcamp", "conflict_zone", "marker", "forwarding_hub", "flood_zone"]
    for i, k in enumerate(K):
        cs.append(dict(locs=[{"location_type": k}, {"location_type": K[(i + 3) % 7]}], edges=slow, at="A", days=3, ops=[[["none"], ["close_link", "A", "B", True]]], vague=True))
        cs.append(dict(locs=[{}, {"location_type": k}, {}], edges=line, at="A", days=2, vague=["B"], mc=1.0, cfg=aw))
        cs.append(dict(locs=[{}, {}, {"location_type": k}], edges=line, at="B", days=2, vague=["C"], mc=1.0))
        # journeys planned earlier, with a shortcut, a missing or closed next route
        kk = [{"location_type": k}, {"location_type": K[(i + 2) % 7]}, {"location_type": K[(i + 4) % 7]}]
        full = [["A", "B", 60.0, {"max_move_speed": "R:0:100"}], ["B", "C", 60.0, {"max_move_speed": "R:0:100"}], ["A", "C", 300.0, {"max_move_speed": 50.0}]]
        cs.append(dict(locs=kk, edges=full, at="A", days=2, plan=["B", "C"], mv1=True))
        cs.append(dict(locs=kk, edges=full, at="A", days=2, plan=["C", "B"], mv1=True))
        cs.append(dict(locs=kk, edges=full, at="A", days=2, plan=["B", "C"], closed=[["A", "B", False]]))
        cs.append(dict(locs=kk, edges=full, at="A", days=3, plan=["B", "C", "A"], closed=[["B", "C", False]], mv1=True))
        cs.append(dict(locs=kk, edges=full[:2], at="B", days=2, plan=["C"], closed=[["B", "C", True]]))
        cs.append(dict(locs=kk, edges=[e + [True] for e in full[:1]] + full[1:], at="A", days=2, mv1=True))
        cs.append(dict(locs=kk[:2], edges=[slow[0] + [True]], at="A", days=3, mv1=True))
    if T:
        cs += [
            dict(locs=L2, edges=pair, at="A", days=4),
            dict(locs=L3, edges=line, at="A", days=3),
            dict(locs=L3, edges=line, at="B", days=3, cfg=aw),
            dict(locs=L3, edges=tri, at="A", days=3),
            dict(locs=L3, edges=tri, at="A", days=3, cfg=aw, ops=[[["none"], ["close_location", "C", True], ["close_link", "A", "C", False]]]),
            dict(locs=L2, edges=slow, at="A", days=4, ops=[cl, re_, cl]),
            dict(locs=L2, edges=pair, at="A", days=3, ops=[cl, re_]),
        ]
    return cs


def run(ctx, case, checks, logged=False, cfg=None):
    w = ctx.world()
    st = {k: dict(v) for k, v in (case.get("cfg") or {}).items()}
    mv = st.setdefault("move_rules", {})
    if "speed" in case:
        mv["max_move_speed"] = sim.sym(ctx, "MaxMoveSpeed", case["speed"])
    if "walk" in case:
        mv["max_walk_speed"] = sim.sym(ctx, "MaxWalkSpeed", case["walk"])
    for k, v in (cfg or {}).items():
        st.setdefault(k, {}).update(v)
    settings(w, st)
    mx = mv.get("max_move_speed", 360.0)
    wk = mv.get("max_walk_speed", 35.0)
    if "mc" in case:
        case = dict(case, locs=[dict({"movechance": case["mc"]}, **l) for l in case["locs"]])
    e = sim.build(ctx, w, case)
    e.addAgent(loc_by_name(e, case["at"]), {})
    a = e.agents[0]
    for x in case.get("closed", []):
        e.close_link(x[0], x[1], twoway=x[2])
    if case.get("plan"):
        a.route = list(case["plan"])
    if case.get("mv1"):                  # everybody sets out
        for loc in e.locations:
            loc.movechance = 1.0
    if case.get("vague"):
        vague(ctx, e, locs=case["vague"])

    def speed_of(link, nth):
        v = link.attributes.get("max_move_speed", mx)
        if mv.get("start_on_foot"):
            v = ite(nth == 0, wk, v)
        return v

    tr = travel.Track(ctx, e, a, speed_of, checks)
    for d in range(case["days"]):
        tr.before()
        lost = tr.plan and not hasattr(a.location, "endpoint") and not any(l.endpoint.name == tr.plan[0] for l in a.location.links)
        here = a.location
        n = len(ctx.draws)
        e.evolve()
        tr.after(mx, logged)
        if lost:
            dr = [x["value"] for x in ctx.draws[n:] if x["kind"] == "random"]
            tr.c("route", a.location is here, "lost-route", "moved although the next route of the journey is gone")
            if dr and a.location is here:
                tr.c("route", implies(dr[0] < here.movechance, len(a.route) == 0), "lost-route", "kept a journey whose next route is gone")
        ctx.observe("place", a.location.name)
        ctx.observe("acc", a.distance_travelled_on_link)
        if d < len(case.get("ops") or []):
            o = ctx.choice("op%d" % d, case["ops"][d])
            if o[0] != "none":
                before = a.location
                sim.op(e, o)
                tr.c("route", a.location is before, "closure-moves", "a closure moved somebody")
    return e, a, tr


def harness(ctx, case):
    run(ctx, case, {"route"}, logged=False)
