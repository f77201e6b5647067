"""C11: scheduled closures, camp changes, redirections and type changes happen on their day only."""
from .lib import *

BOUNDS = ("5 locations in 2 countries; schedules of 1 entry over 5 days and 2 entries over 3 days (all kinds and pairs of kinds, each entry's start and end day symbolic, also equal, reversed or never), handed over directly or read from closures.csv, one- and two-way enactment; thorough: 2 and 3 entries over 5 days; all pairs of location types with all move-chance settings >= 0.005; "
          "location changes from a file with symbolic days, up to 2 changes, known and unknown names, over 4 days")
OUTSIDE = "chances of leaving below 0.005 for non-camps (automatic camp rule, C04); parallel links"

TYPES = ["camp", "idpcamp", "town", "conflict_zone", "flood_zone", "forwarding_hub", "marker", "default"]
KINDS = {"country": ["country", "cx", "cy"], "location": ["location", "locB", ""], "link": ["link", "locA", "locB"], "link2": ["link", "locC", "locD"],
         "camp": ["camp", "locC", ""], "idpcamp": ["idpcamp", "locD", ""], "redir": ["remove_forced_redirection", "locA", "locB"],
         "redir2": ["remove_forced_redirection", "locB", "locA"], "unknown": ["location", "nowhere", ""], "ulink": ["link", "locA", "nowhere"],
         "ucamp": ["camp", "nowhere", ""], "uredir": ["remove_forced_redirection", "nowhere", "locB"], "kind": ["something", "locA", "locB"],
         "campA": ["camp", "locA", ""], "idpB": ["idpcamp", "locB", ""], "country2": ["country", "cy", "cx"], "ucountry": ["country", "cx", "nowhere"]}
EDGES = [("locA", "locB"), ("locB", "locC"), ("locA", "locC"), ("locC", "locD"), ("locA", "locE")]
NAMES = ["locA", "locB", "locC", "locD", "locE"]
START = {"locA": "conflict_zone", "locB": "town", "locC": "camp", "locD": "idpcamp", "locE": "marker"}
COUNTRY = {"locA": "cx", "locB": "cx", "locC": "cy", "locD": "cy", "locE": "cx"}


def cases(tier):
    T = tier == "thorough"
    cs = []
    for k in KINDS:
        for f in (True, False):
            for two in (True, False):
                cs.append(dict(t="schedule", entries=[k], file=f, two=two))
    main = ["country", "location", "link", "link2", "camp", "idpcamp", "redir", "campA"]
    for a in main:
        for b in main:
            cs.append(dict(t="schedule", entries=[a, b], file=(a < b), two=True, days=5 if T else 3, lo=0, hi=5 if T else 3))
    if T:
        for a in main:
            for b in main:
                cs.append(dict(t="schedule", entries=[a, b], file=True, two=False))
                for c in ("country", "link", "redir", "idpcamp"):
                    cs.append(dict(t="schedule", entries=[a, b, c], file=True, two=True, lo=0, hi=4))
    for a in TYPES:
        for b in TYPES:
            cs.append(dict(t="type", a=a, b=b))
    cs.append(dict(t="camps"))
    for k in ("town", "camp", "conflict_zone", "idpcamp"):
        for b in TYPES:
            cs.append(dict(t="changes", changes=[[k, b]]))
    cs.append(dict(t="changes", changes=[["town", "camp"], ["same", "town"]]))
    cs.append(dict(t="changes", changes=[["town", "camp"], ["other", "idpcamp"]]))
    cs.append(dict(t="changes", changes=[["town", "camp"], ["unknown", "idpcamp"]]))
    return cs


def harness(ctx, case):
    {"schedule": schedule, "type": types, "camps": camps, "changes": changes}[case["t"]](ctx, case)


def txt(s):
    return "".join(list(s)) if s is not None else None


def rules(ctx):
    m = {n: ctx.real(n, 0.01, 1) for n in ("camp_movechance", "idpcamp_movechance", "conflict_movechance", "default_movechance")}
    return m


def chance(mv, kind):
    if "idp" in kind:
        return mv["idpcamp_movechance"]
    if "camp" in kind:
        return mv["camp_movechance"]
    if "conflict" in kind:
        return mv["conflict_movechance"]
    if kind in ("forwarding_hub", "marker"):
        return 1.0
    return mv["default_movechance"]


def check_type(ctx, loc, kind, mv, when, label="type"):
    ctx.check_eq(loc.movechance, chance(mv, kind), label, f"chance of leaving of a {kind} {when}")
    exp = dict(camp="camp" in kind, idpcamp="idp" in kind, town=kind in ("town", "default"), forward=kind == "forwarding_hub", marker=kind == "marker",
               flood_zone=kind == "flood_zone")
    for k, v in exp.items():
        ctx.check(bool(getattr(loc, k)) == v, label, f"{k} is {getattr(loc, k)} for a {kind} {when}")
    ctx.check_eq(loc.conflict, 1.0 if "conflict" in kind else -1.0, label, f"conflict value of a {kind} {when}")


def network(ctx, mv):
    w = ctx.world()
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    for nm in NAMES:
        e.addLocation(name=nm, x=0.0, y=0.0, location_type=START[nm], capacity=-1, pop=0, country=COUNTRY[nm], foreign=COUNTRY[nm] != "cx")
    for i, (a, b) in enumerate(EDGES):
        e.linkUp(a, b, distance=100.0 + i, forced_redirection=i == 0)
    return w, e


def loaded(ctx, mv, rows):
    """the same network read from files, with the given closures"""
    w = ctx.world()
    settings(w, {"move_rules": mv})
    write("loc.csv", "#name,region,country,x,y,type,conflict_date,pop\n" + "".join(f"{n},r,{COUNTRY[n]},0,0,{START[n]},0,0\n" for n in NAMES))
    write("routes.csv", "#a,b,d,redirect\n" + "".join(f"{a},{b},{100 + i},{2 if i == 0 else 0}\n" for i, (a, b) in enumerate(EDGES)))
    write("closures.csv", "#type,a,b,start,end\n" + "".join(",".join(str(x) for x in r) + "\n" for r in rows))
    ig = w.InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("closures.csv")
    e = w.flee.Ecosystem()
    ig.StoreInputGeographyInEcosystem(e)
    return w, e


def schedule(ctx, case):
    mv = rules(ctx)
    rows = []
    for i, k in enumerate(case["entries"]):
        lo, hi = case.get("lo", -1), case.get("hi", 6)
        rows.append(KINDS[k] + [ctx.int(f"start{i}", lo, hi), ctx.int(f"end{i}", lo, hi)])
    if case["file"]:
        w, e = loaded(ctx, mv, rows)
    else:
        w, e = network(ctx, mv)
        e.closures = [list(r[:3]) + r[3:] for r in rows]
    t0 = 0
    if len(rows) == 1:
        vague(ctx, e, locs=["locB", "locC", "locD"])
        if not case["file"]:
            t0 = ctx.int("t0", 0, 5000)          # the schedule may lie on any days of a longer run
            e.time = t0
            e.closures = [list(r[:3]) + [r[3] + t0, r[4] + t0] for r in rows]
    is_open = {}
    for a, b in EDGES:
        is_open[(a, b)] = is_open[(b, a)] = True
    flag = {k: k == EDGES[0] for k in is_open}
    kind = dict(START)
    for day in range(case.get("days", 5)):
        e.enact_border_closures(t0 + day, twoway=case["two"])
        for r in rows:
            for hit, closing in ((r[3], True), (r[4], False)):
                if hit == day:
                    apply(r, closing, case["two"], is_open, flag, kind)
        got = {}
        for loc in e.locations:
            for l in loc.links:
                got[(loc.name, l.endpoint.name)] = l
        exp = sorted(k for k in is_open if is_open[k])
        ctx.check(sorted(got) == exp, "links", f"open links {sorted(got)}, expected {exp} on day {day}")
        for k, l in got.items():
            if k in flag:
                ctx.check(bool(l.forced_redirection) == flag[k], "redirection", f"redirection of {k} is {l.forced_redirection} on day {day}")
        for nm in NAMES:
            check_type(ctx, loc_by_name(e, nm), kind[nm], mv, f"({nm}) on day {day}", "camp")


def apply(r, closing, two, is_open, flag, kind):
    k, a, b = r[:3]
    if k == "country":
        for x, y in is_open:
            if (COUNTRY[x], COUNTRY[y]) == (a, b) or two and (COUNTRY[x], COUNTRY[y]) == (b, a):
                is_open[(x, y)] = not closing
    elif k == "location":
        for x, y in is_open:
            if y == a or two and x == a:
                is_open[(x, y)] = not closing
    elif k == "link":
        for x, y in is_open:
            if (x, y) == (a, b) or two and (y, x) == (a, b):
                is_open[(x, y)] = not closing
    elif k in ("camp", "idpcamp"):
        if a in kind:
            kind[a] = "town" if closing else k
    elif k == "remove_forced_redirection":
        if (a, b) in flag:
            flag[(a, b)] = not closing


def types(ctx, case):
    mv = rules(ctx)
    w = ctx.world()
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="locA", x=1.0, y=2.0, location_type=case["a"], capacity=7, pop=13)
    b = e.addLocation(name="locB", x=1.0, y=2.0, location_type=case["b"], capacity=7, pop=13)
    c = e.addLocation(name="locC", x=1.0, y=2.0, location_type=case["a"], capacity=7, pop=13)
    for loc in (a, b, c):
        loc.numAgents = ctx.int(loc.name + ".people", 0, 500)
        loc.numAgentsSpawned = ctx.int(loc.name + ".spawned", 0, 500)
    a.foreign = b.foreign = ctx.bool("foreign")
    e.time = ctx.int("time", 0, 5000)
    for other in ("nowhere", "loca", "locB2"):
        e.change_location_type(other, case["b"])
    check_type(ctx, a, case["a"], mv, "before the change")
    check_type(ctx, c, case["a"], mv, "before the change")
    e.change_location_type(txt("locA"), case["b"])
    check_type(ctx, a, case["b"], mv, f"that was a {case['a']}")
    check_type(ctx, b, case["b"], mv, "not changed")
    check_type(ctx, c, case["a"], mv, "not changed")
    for k in ("capacity", "pop", "x", "y", "name", "foreign", "country", "region"):
        ctx.check(getattr(a, k) == getattr(b, k) or k == "name", "type", f"{k} changed with the type")
    # after a day the two are equally attractive
    e.evolve()
    ctx.check_eq(a.getScore(1), b.getScore(1), "type", "attractiveness after the change")


def camps(ctx, case):
    mv = rules(ctx)
    w, e = network(ctx, mv)
    vague(ctx, e)
    kind = dict(START)
    for s in range(3):
        o = ctx.choice(f"o{s}", [[x, n, i] for x in ("open", "close") for n in ("locA", "locC", "locD", "nowhere") for i in (True, False)])
        (e.open_camp if o[0] == "open" else e.close_camp)(txt(o[1]), IDP=o[2])
        if o[1] in kind:
            kind[o[1]] = "town" if o[0] == "close" else ("idpcamp" if o[2] else "camp")
    for nm in NAMES:
        check_type(ctx, loc_by_name(e, nm), kind[nm], mv, f"({nm})", "camp")


def changes(ctx, case):
    mv = rules(ctx)
    names = {"town": "locB", "camp": "locC", "conflict_zone": "locA", "idpcamp": "locD", "same": "locB", "other": "locE", "unknown": "nowhere"}
    rows = [[names[k], b, ctx.int(f"day{i}", -1, 4)] for i, (k, b) in enumerate(case["changes"])]
    write("location_changes.csv", "#name,type,day\n" + "".join(",".join(str(x) for x in r) + "\n" for r in rows))
    w = ctx.world()
    settings(w, {"move_rules": mv})
    write("loc.csv", "#name,region,country,x,y,type,conflict_date,pop\n" + "".join(f"{n},r,{COUNTRY[n]},0,0,{START[n]},0,0\n" for n in NAMES))
    write("routes.csv", "#a,b,d\n" + "".join(f"{a},{b},{100 + i}\n" for i, (a, b) in enumerate(EDGES)))
    write("closures.csv", "#type,a,b,start,end\n")
    ig = w.InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("closures.csv")
    e = w.flee.Ecosystem()
    ig.StoreInputGeographyInEcosystem(e)
    kind = dict(START)
    for day in range(4):
        ig.AddNewConflictZones(e, day)
        e.enact_border_closures(day)
        for r in rows:
            if r[2] == day and r[0] in kind:
                kind[r[0]] = r[1]
        if day == 0 and kind["locA"] != START["locA"]:
            # a declared conflict zone of date 0 starts its conflict on day 0 as well
            if rows[0][0] == "locA":
                return
        for nm in NAMES:
            check_type(ctx, loc_by_name(e, nm), kind[nm], mv, f"({nm}) on day {day}", "change")
