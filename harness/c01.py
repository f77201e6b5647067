"""C01: conservation of people and exact headcounts."""
from .lib import *
from . import sim

BOUNDS = ("networks of 2-3 locations with given lengths; 1-3 people; 1-4 days; every route speed in (0, 2.5 x shortest route] "
          "(so arriving, not arriving and several routes on one day all occur); every outcome of every draw; "
          "additions, closures, reopenings and clearing of locations chosen freely between days")
OUTSIDE = "more people, larger networks, more days, longer days with more than three routes; floating-point rounding"


def cases(tier):
    T = tier == "thorough"
    L2 = [{}, {}]
    L3 = [{}, {}, {}]
    pair = [["A", "B", 100.0, {"max_move_speed": "R:0:250"}]]
    slow = [["A", "B", 100.0, {"max_move_speed": "R:0:100"}]]
    line = [["A", "B", 100.0, {"max_move_speed": "R:0:200"}], ["B", "C", 60.0, {"max_move_speed": "R:0:60"}]]
    tri = [["A", "B", 100.0, {"max_move_speed": "R:0:100"}], ["B", "C", 60.0, {"max_move_speed": "R:0:60"}],
           ["A", "C", 80.0, {"max_move_speed": 50.0}]]
    lk = [["none"], ["close_link", "A", "B", True], ["close_link", "A", "B", False], ["close_location", "B", True],
          ["clear", ["A"]], ["clear", ["B"]], ["insert", "B", 2], ["add", "A"]]
    re_ = [["none"], ["reopen_link", "A", "B", True], ["reopen_link", "B", "A", False], ["reopen_location", "B", True],
           ["clear", ["A", "B"]], ["add", "B"]]
    cs = [
        dict(locs=L2, edges=pair, people=["A"], days=3, ops=[]),
        dict(locs=L2, edges=slow, people=["A", "A"], days=2, ops=[], slow=True),
        dict(locs=L2, edges=slow, people=["A", "B"], days=2, ops=[], slow=True),
        dict(locs=L3, edges=line, people=["A"], days=2, ops=[]),
        dict(locs=L3, edges=tri, people=["A"], days=2, ops=[], slow=True),
        dict(locs=L2, edges=slow, people=["A"], days=4, ops=[], slow=True),
        dict(locs=L2, edges=slow, people=["A"], days=3, ops=[lk, re_], slow=True),
        dict(locs=L2, edges=pair, people=["A"], days=2, ops=[lk]),
        dict(locs=[{"country": "X"}, {"country": "Y"}], edges=slow, people=["A"], days=3, slow=True,
             ops=[[["close_border", "X", "Y", True], ["close_border", "X", "Y", False], ["close_location", "A", False]],
                  [["reopen_border", "X", "Y", True], ["reopen_border", "Y", "X", False], ["reopen_location", "A", False],
                   ["reopen_location", "A", True]]]),
        dict(locs=[{"pop": 1}, {}, {"location_type": "town"}], edges=tri, people=["A"], days=1, ops=[], slow=True,
             cfg={"spawn_rules": {"take_from_population": True}, "move_rules": {"awareness_level": 2}}),
        dict(locs=L3, edges=tri, people=["C"], days=2, slow=True, ops=[[["clear", ["B", "C"]], ["clear", ["L:C:B"]], ["close_location", "C", True]]]),
        dict(locs=L2, edges=slow, people=["A"], days=2, ops=[], slow=True, cfg={"log_levels": {"agent": 2, "link": 2, "camp": 1}}),
    ]
    two = {"move_rules": {"awareness_level": 2}}
    cs += [
        dict(locs=L3, edges=line, people=["A"], days=3, ops=[[["none"]], [["clear", ["B"]], ["clear", ["A", "C"]]]], cfg=two),
        dict(locs=[{"location_type": "conflict"}, {"location_type": "town"}, {"location_type": "camp", "capacity": 1}], edges=line,
             people=["A", "A"], days=2, ops=[], cfg=dict(two, log_levels={"camp": 1})),
        dict(locs=L2, edges=slow, people=["A", "A"], days=3, slow=True,
             ops=[[["close_link", "A", "B", True]], [["reopen_link", "A", "B", True], ["clear", ["A"]]]]),
    ]
    for kind in ("idpcamp", "camp"):
        cs.append(dict(locs=[{"location_type": kind, "capacity": 1}, {"location_type": "idpcamp", "capacity": "i:-1:3"}], edges=slow, people=["A", "A", "B"], days=1, slow=True, ops=[[["none"], ["clear", ["A"]]]]))
    K = ["town", "camp", "idpcamp", "conflict_zone", "marker", "forwarding_hub", "flood_zone"]
    some = [["none"], ["close_link", "A", "B", True], ["close_location", "A", True], ["clear", ["A"]]]
    back = [["none"], ["reopen_link", "A", "B", True], ["reopen_location", "A", True], ["insert", "A", 2]]
    for i, k in enumerate(K):
        cs.append(dict(locs=[{"location_type": k}, {"location_type": K[(i + 3) % 7]}], edges=slow, people=["A"], days=3, slow=True, ops=[some, back], vague=True))
        cs.append(dict(locs=[{"location_type": K[(i + 2) % 7]}, {"location_type": k}], edges=pair, people=["A", "B"], days=1, ops=[], vague=True))
    if T:
        cs += [
            dict(locs=L2, edges=slow, people=["A", "A"], days=3, ops=[], slow=True),
            dict(locs=L2, edges=slow, people=["A", "A", "B"], days=2, ops=[], slow=True),
            dict(locs=L2, edges=pair, people=["A", "B"], days=2, ops=[]),
            dict(locs=L3, edges=tri, people=["A", "C"], days=2, ops=[], slow=True),
            dict(locs=L3, edges=tri, people=["A"], days=3, ops=[lk], slow=True),
            dict(locs=L2, edges=slow, people=["A"], days=4, ops=[lk, re_, lk], slow=True),
            dict(locs=L2, edges=slow, people=["A", "A"], days=3, ops=[lk, re_], slow=True),
            dict(locs=L2, edges=pair, people=["A"], days=3, ops=[lk, re_]),
            dict(locs=[{"country": "X"}, {"country": "Y"}, {"country": "X"}], edges=tri, people=["A"], days=3, slow=True,
                 ops=[[["close_border", "X", "Y", True], ["close_border", "X", "Y", False]],
                      [["reopen_border", "X", "Y", True], ["reopen_location", "B", True]]]),
        ]
    return cs


def harness(ctx, case):
    w = ctx.world()
    settings(w, dict(case.get("cfg") or {}))
    e = sim.build(ctx, w, case)
    everyone = []

    def apply(o):
        before = list(e.agents)
        where = [(a.location, a.travelling) for a in before]
        sim.op(e, o)
        if o[0] in ("add", "insert"):
            k = 1 if o[0] == "add" else o[2]
            ctx.check(len(e.agents) == len(before) + k and all(x is y for x, y in zip(e.agents, before)), "added",
                      "adding people must append exactly the new people")
            for a in e.agents[len(before):]:
                ctx.check(a.location is loc_by_name(e, o[1]) and not any(a is b for b in before), "added", "new person in the wrong place")
        elif o[0] == "clear":
            keep = [a for a, (l, t) in zip(before, where) if t or l.name not in o[1]]
            keep = [a for a in keep if not (a.location.name in o[1])]
            ctx.check(len(keep) == len(e.agents) and all(x is y for x, y in zip(e.agents, keep)), "cleared",
                      f"clearing {o[1]} removed somebody else or left somebody")
        else:
            ctx.check(len(before) == len(e.agents) and all(x is y for x, y in zip(e.agents, before)), "conserved",
                      "a closure changed the people")
            ctx.check(all(a.location is l for a, (l, t) in zip(before, where)), "conserved", "a closure moved somebody")
        everyone[:] = list(e.agents)

    for p in case["people"]:
        apply(["add", p])
    if case.get("vague"):
        vague(ctx, e)
    start = {id(a): a.places_travelled for a in e.agents}
    headcount_ok(ctx, e)
    entered = {}          # route name -> times entered
    for d in range(case["days"]):
        prev = [a.location for a in e.agents]
        gone = [l for l in prev if l is not None and l.name.startswith("L:")]
        e.evolve()
        ctx.check(len(e.agents) == len(everyone) and all(x is y for x, y in zip(e.agents, everyone)), "conserved",
                  "a day changed the set of people")
        ctx.check_eq(e.numAgents(), len(everyone), "total", "reported number of people")
        ctx.check_eq(e.numIDPs(), sum(1 for a in e.agents if getattr(a.location, "idpcamp", False)), "total", "reported number of people in IDP camps")
        places, seen = headcount_ok(ctx, e)
        for a, p in zip(e.agents, prev):
            l = a.location
            closed_here = l is p and getattr(l, "closed", False) is True
            ctx.check(id(l) in seen or closed_here, "somewhere", "a person is in no place of the simulation")
            is_link = hasattr(l, "endpoint")
            ctx.check(bool(a.travelling) == is_link, "somewhere", "travelling flag and place disagree")
            if is_link and l is not p:
                entered[l.name] = entered.get(l.name, 0) + 1
        for l in gone:
            if getattr(l, "closed", False) is True and id(l) not in seen:
                ctx.check_eq(l.numAgents, len(places.get(id(l), [])), "headcount", "closed route in use")
        if case.get("slow"):
            for l in all_links(e):
                ctx.check_eq(l.cumNumAgents, entered.get(l.name, 0), "cumulative",
                             f"cumulative count of {l.name}")
        elif not case["ops"]:
            done = 0
            for a in e.agents:
                done += a.places_travelled - start.get(id(a), 1) + (1 if a.travelling else 0)
            ctx.check_eq(sum(l.cumNumAgents for l in all_links(e)), done, "cumulative", "cumulative counts vs completed routes")
        for l in all_links(e) + e.locations:
            ctx.observe(l.name, l.numAgents)
        if d < len(case["ops"]):
            o = ctx.choice("op%d" % d, case["ops"][d])
            apply(o)
            headcount_ok(ctx, e)
