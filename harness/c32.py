"""C32: forced redirections are followed by everybody who leaves the place they start at, and by nobody else."""
from .lib import *

BOUNDS = ("4 places (A - hub - camp, hub - other place, A - other place) of every kind at the redirecting place and its ends, one person (2 in some cases) starting at any place with or "
          "without an earlier plan, 3 days with any change on each: redirection removed or restored directly or by the schedule (every start and end day), its road closed or reopened; "
          "given by routes.csv (0, 1, 2) or by linkUp; awareness 0-3, precomputed routes, every draw and length of the redirected road")
OUTSIDE = "several redirections at one place (any of them may be taken); full camps at the end (C08); the microscale link types"

K = ["forwarding_hub", "town", "camp", "idpcamp", "conflict_zone", "flood_zone"]
OPS = [["none"], ["remove"], ["restore"], ["close"], ["reopen"], ["remove-other"]]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for i, k in enumerate(K):
        kinds = [k, K[(i + 2) % 6], K[(i + 3) % 6], K[(i + 1) % 6]]
        cs.append(dict(kinds=kinds, at="Hub", plan=[], aw=1 + i % 3))
        cs.append(dict(kinds=kinds, at="Hub", plan=["Other"], aw=1))
        cs.append(dict(kinds=kinds, at="Hub", plan=["Camp", "Other"] if i % 2 else ["Camp"], aw=1))
        cs.append(dict(kinds=kinds, at="Start", plan=["Hub", "Other"], aw=1))
        cs.append(dict(kinds=kinds, at="Start", plan=["Hub", "Camp"], aw=2))
        cs.append(dict(kinds=kinds, at="Camp", plan=[] if i % 2 else ["Hub", "Other"], aw=1))
    cs.append(dict(kinds=K[:4], at="Hub", plan=[], aw=0))
    cs.append(dict(kinds=K[:4], at="Hub", plan=[], aw=2, fixed=True))
    cs.append(dict(kinds=K[:4], at="Start", plan=[], aw=2, fixed=True))
    cs.append(dict(kinds=K[:4], at="Start", plan=[], aw=2))
    cs.append(dict(kinds=K[:4], at="Hub", plan=[], aw=1, people=2, days=2))
    for v in (0, 1, 2):
        cs.append(dict(kinds=K[:4], at="Hub", plan=[], aw=1, file=v))
        cs.append(dict(kinds=K[:4], at="Hub", plan=["Other"], aw=1, file=v, swap=True))
    for at, plan in (("Hub", []), ("Hub", ["Other"]), ("Start", ["Hub", "Start"])):
        cs.append(dict(kinds=K[:4], at=at, plan=plan, aw=1, schedule=True))
    if T:
        for c in list(cs):
            cs.append(dict(c, days=4))
    return cs


def harness(ctx, case):
    w = ctx.world()
    mv = {"awareness_level": case["aw"], "max_move_speed": 100.0, "default_movechance": 0.5, "conflict_movechance": 0.5, "camp_movechance": 0.5, "idpcamp_movechance": 0.5}
    if case.get("fixed"):
        mv["fixed_routes"] = True
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    names = ["Hub", "Camp", "Start", "Other"]
    v = case.get("file", 2)
    lens = {("Start", "Hub"): 50.0, ("Hub", "Camp"): ctx.real("d1", 20, 250), ("Hub", "Other"): 150.0, ("Start", "Other"): 400.0}
    if "file" in case:
        write("locations.csv", "#name,region,country,lat,lon,type,date,pop\n" + "".join(
            f"{n},R,Land,0.0,0.0,{k},0,0\n" for n, k in zip(names, ["forwarding_hub", "camp", "town", "town"])))
        rows = []
        for (a, b), d in lens.items():
            x = v if (a, b) == ("Hub", "Camp") else 0
            if case.get("swap") and (a, b) == ("Hub", "Camp"):
                a, b, x = b, a, {0: 0, 1: 2, 2: 1}[x]
            rows.append(f"{a},{b},100.0,{x}\n")
        write("routes.csv", "#name1,name2,distance,forced_redirection\n" + "".join(rows))
        write("closures.csv", "#closure_type,name1,name2,closure_start,closure_end\n")
        ig = w.InputGeography.InputGeography()
        ig.ReadLocationsFromCSV("locations.csv")
        ig.ReadLinksFromCSV("routes.csv")
        ig.ReadClosuresFromCSV("closures.csv")
        e, _ = ig.StoreInputGeographyInEcosystem(e)
        active = v == 2
    else:
        for n, k in zip(names, case["kinds"]):
            e.addLocation(name=n, x=0.0, y=0.0, location_type=k, capacity=-1, pop=0)
        for (a, b), d in lens.items():
            e.linkUp(a, b, distance=d)
        e.set_forced_redirection("Hub", "Camp", True)
        active = True
    for loc in e.locations:
        loc.movechance = 0.5
    for a, b in (("Other", "Hub"), ("Camp", "Hub"), ("Other", "Start")):
        if a != case["at"]:
            e.close_link(a, b, twoway=False)
    closed = False
    op = "none"
    start = end = None
    if case.get("schedule"):
        start, end = ctx.int("start", -1, 4), ctx.int("end", -1, 4)
        e.closures.append(["remove_forced_redirection", "Hub", "Camp", start, end])
    for i in range(case.get("people", 1)):
        e.addAgent(loc_by_name(e, case["at"]), {})
        e.agents[i].route = list(case["plan"])
    hub = loc_by_name(e, "Hub")
    camp = loc_by_name(e, "Camp")
    for d in range(case.get("days", 3 if not case.get("schedule") else 4)):
        if case.get("schedule"):
            e.enact_border_closures(e.time, twoway=True)
            on = ctx_true(start == d)
            off = ctx_true(end == d)
            if on:
                active = False
            if off:
                active = True
        places = [a.location for a in e.agents]
        plans = [list(a.route) for a in e.agents]
        links = all_links(e)
        before = {id(l): l.cumNumAgents for l in links}
        n = len(ctx.draws)
        e.evolve()
        entered = [l for l in links if l.cumNumAgents > before[id(l)]]
        for l in entered:
            if l.startpoint is hub and active and not closed:
                ctx.check(l.endpoint is camp, "redirected", f"left the redirecting place towards {l.endpoint.name}")
            ctx.check(not l.closed, "closed", "entered a closed road")
        if case.get("people", 1) == 1:
            a, at, plan = e.agents[0], places[0], plans[0]
            first = [l for l in entered if l.startpoint is at]       # more than one if the person came back the same day
            left = bool(first)
            forced = at is hub and active and not closed
            if left and not forced and plan:
                ctx.check(any(l.endpoint.name == plan[0] for l in first), "not-redirected", f"planned {plan}, went to {first[0].endpoint.name}")
            if left and forced and plan[:1] == ["Camp"] and a.location is first[0] and len(entered) == 1:
                ctx.check(list(a.route) == plan[1:], "plan", "a journey that follows the redirection anyway was given up")
            draws = [x for x in ctx.draws[n:] if x["kind"] == "random"]
            if at is hub and forced and draws:
                ctx.check(iff(bool(left), draws[0]["value"] < 0.5), "sets-out", "does not set out exactly when the draw says so")
            chosen = [x for x in ctx.draws[n:] if x["kind"] in ("choices", "choice", "np.choice")]
            if at is hub and left and not forced and not plan and case["aw"] > 0 and chosen:
                firsts = {x[0] for x in chosen[0]["options"]}
                want = {"Start", "Other"} | ({"Camp"} if not closed else set())
                ctx.check(firsts >= want if not case.get("fixed") else True, "free", f"only {sorted(firsts)} offered at a place without redirection")
        ctx.observe("places", [a.location.name for a in e.agents])
        if not case.get("schedule") and d < 2:
            op = ctx.choice(f"op{d}", OPS if d == 0 and case.get("people", 1) == 1 else [["none"], [{"remove": "restore", "close": "reopen"}.get(op, "remove")]])[0]
            if op == "remove":
                e.set_forced_redirection("Hub", "Camp", False)
                active = False
            elif op == "restore":
                e.set_forced_redirection("Hub", "Camp", True)
                active = True
            elif op == "remove-other":
                e.set_forced_redirection("Camp", "Hub", False)
            elif op == "close":
                e.close_link("Hub", "Camp", twoway=False)
                closed = True
            elif op == "reopen":
                e.reopen_link("Hub", "Camp", twoway=False)
                closed = False


def ctx_true(c):
    return bool(c)
