"""C12: the conflict state of every location follows the conflict input."""
from .lib import *

BOUNDS = ("every intensity table for 2 listed locations (kinds town, flood zone, hub, explicit camp) over 3 days and for 1 over 5 days, every value 0 or in [0.01,100] (symbolic), all move-chance "
          "settings >= 0.005, listed names unknown to the network, columns in any order; without a file: 2 declared conflict zones with every pair of dates 0..6 and every declared intensity, over 5 days; "
          "thorough: 2 locations over 5 days")
OUTSIDE = "intensities below 0.01; conflict files together with declared conflict zones; flood rules on (the conflict file is not used then)"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for k in ("town", "marker", "camp", "forwarding_hub"):
        cs.append(dict(t="file", kinds=[k], days=5))
    for k in (("town", "town"), ("town", "camp"), ("camp", "town")):
        for order in ((0, 1), (1, 0)):
            cs.append(dict(t="file", kinds=list(k), order=list(order), days=5 if T else 3))
    cs.append(dict(t="file", kinds=["town"], days=4, unknown=True))
    cs.append(dict(t="file", kinds=["town"], days=3, nochance=True))
    for i in (True, False):
        for m in (1, 2):
            cs.append(dict(t="dates", n=m, intensity=i, days=5))
    cs.append(dict(t="direct", days=4))
    return cs


def harness(ctx, case):
    {"file": file, "dates": dates, "direct": direct}[case["t"]](ctx, case)


def chances(ctx, full=True):
    if not full:
        return {}
    return {n: ctx.real(n, 0.005, 1) for n in ("conflict_movechance", "default_movechance")}


def default(mv):
    return dict({"conflict_movechance": 1.0, "default_movechance": 0.3}, **mv)


def peaceful(ctx, loc, mv, when):
    ctx.check(loc.conflict <= 0, "conflict", f"{loc.name} in conflict {when}")
    ctx.check(bool(loc.town), "town", f"{loc.name} no town {when}")
    ctx.check_eq(loc.movechance, mv["default_movechance"], "movechance", f"chance of leaving of {loc.name} {when}")


def atwar(ctx, loc, mv, intensity, start, when):
    ctx.check_eq(loc.conflict, intensity, "intensity", f"intensity of {loc.name} {when}")
    ctx.check(not loc.town, "town", f"{loc.name} still a town {when}")
    ctx.check_eq(loc.movechance, mv["conflict_movechance"], "movechance", f"chance of leaving of {loc.name} {when}")
    ctx.check_eq(loc.time_of_conflict, start, "start", f"start of the conflict of {loc.name} {when}")


def value(ctx, name):
    v = ctx.real(name, 0, 100)
    ctx.assume(bor(v == 0, v >= 0.01))
    return v


def load(ctx, w, locs):
    write("loc.csv", "#name,region,country,x,y,type,conflict_date,pop" + (",conflict_intensity" if len(locs[0]) > 3 else "") + "\n"
          + "".join(f"{r[0]},reg,cx,0,0,{r[1]},{r[2]},100" + (f",{r[3]}" if len(r) > 3 else "") + "\n" for r in locs))
    write("routes.csv", "#a,b,d\n" + "".join(f"{locs[0][0]},{r[0]},100\n" for r in locs[1:]))
    write("closures.csv", "#type,a,b,start,end\n")
    ig = w.InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("closures.csv")
    e = w.flee.Ecosystem()
    ig.StoreInputGeographyInEcosystem(e)
    return ig, e


def file(ctx, case):
    w = ctx.world()
    mv = chances(ctx, not case.get("nochance"))
    n, days = len(case["kinds"]), case["days"]
    names = ["locA", "locB"][:n]
    table = [[value(ctx, f"v{nm}{t}") for nm in names] for t in range(days)]
    order = case.get("order", list(range(n)))
    head = ["#Day"] + [" " + names[i] for i in order]
    rows = [[t] + [table[t][i] for i in order] for t in range(days)]
    if case.get("unknown"):
        head.append("ghost")
        for t in range(days):
            rows[t].append(value(ctx, f"ghost{t}"))
    write("conflicts.csv", ",".join(head) + "\n" + "".join(",".join(str(x) for x in r) + "\n" for r in rows))
    settings(w, {"move_rules": mv, "conflict_input_file": "conflicts.csv"})
    mv = default(mv)
    locs = [[nm, k, 0] for nm, k in zip(names, case["kinds"])] + [["other", "town", 0]]
    ig, e = load(ctx, w, locs)
    vague(ctx, e, time=False, locs=["locA"] if n == 1 else [])
    state = {nm: None for nm in names}         # (intensity, start)
    fresh = {nm: True for nm in names}         # never been in conflict
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for i, nm in enumerate(names):
            v = table[t][i]
            loc = loc_by_name(e, nm)
            if v > 0:
                if state[nm] is None:
                    state[nm] = (v, t)
                fresh[nm] = False
                atwar(ctx, loc, mv, state[nm][0], state[nm][1], f"on day {t}")
            else:
                state[nm] = None
                if not fresh[nm]:
                    peaceful(ctx, loc, mv, f"on day {t}")
                else:
                    ctx.check(loc.conflict <= 0, "conflict", f"{nm} in conflict on day {t}")
                    ctx.check(bool(loc.town) == (case["kinds"][i] == "town"), "untouched", f"{nm} changed on day {t}")
        peaceful(ctx, loc_by_name(e, "other"), mv, f"(not listed) on day {t}")
        e.evolve()


def dates(ctx, case):
    w = ctx.world()
    mv = chances(ctx)
    settings(w, {"move_rules": mv})
    mv = default(mv)
    names = ["locA", "locB"][:case["n"]]
    date = {nm: ctx.int("date" + nm, 0, 6) for nm in names}
    inten = {nm: ctx.real("intensity" + nm, 0.01, 50) if case["intensity"] else 1.0 for nm in names}
    locs = [[nm, "conflict_zone", date[nm]] + ([inten[nm]] if case["intensity"] else []) for nm in names]
    locs.append(["other", "town", 3] + ([0.5] if case["intensity"] else []))
    ig, e = load(ctx, w, locs)
    vague(ctx, e, time=False, locs=["locA"])
    for nm in names:
        loc = loc_by_name(e, nm)
        if date[nm] == 0:
            ctx.check_eq(loc.conflict, inten[nm], "intensity", f"{nm} must be in conflict from the start")
            ctx.check(not loc.town, "town", f"{nm} town from the start")
        else:
            peaceful(ctx, loc, mv, "at the start")
    for t in range(case["days"]):
        ig.AddNewConflictZones(e, t)
        for nm in names:
            loc = loc_by_name(e, nm)
            if date[nm] <= t:
                atwar(ctx, loc, mv, inten[nm], date[nm], f"on day {t}")
            else:
                peaceful(ctx, loc, mv, f"on day {t}")
        peaceful(ctx, loc_by_name(e, "other"), mv, f"(no conflict zone) on day {t}")
        e.evolve()


def direct(ctx, case):
    """conflicts started and stopped through the public calls"""
    w = ctx.world()
    mv = chances(ctx)
    settings(w, {"move_rules": mv})
    mv = default(mv)
    e = w.flee.Ecosystem()
    for nm in ("locA", "locB"):
        e.addLocation(name=nm, x=0.0, y=0.0, location_type="town", capacity=-1, pop=10)
    e.linkUp("locA", "locB", distance=100.0)
    vague(ctx, e, time=False, locs=["locA"])
    st = {"locA": None, "locB": None}
    for t in range(case["days"]):
        o = ctx.choice(f"o{t}", [["none"], ["add", "locA"], ["set", "locA"], ["set", "locB"], ["remove", "locA"], ["zero", "locB"], ["set", "nowhere"]])
        if o[0] == "add":
            v = ctx.real(f"v{t}", 0.01, 10)
            e.add_conflict_zone("".join(list(o[1])), v)
            st[o[1]] = (v, t)
        elif o[0] == "set":
            v = ctx.real(f"v{t}", 0.01, 10)
            e.set_conflict_intensity("".join(list(o[1])), v)
            st[o[1]] = (v, t)
        elif o[0] == "remove":
            e.remove_conflict_zone("".join(list(o[1])))
            st[o[1]] = None
        elif o[0] == "zero":
            e.set_conflict_intensity("".join(list(o[1])), 0.0)
            st[o[1]] = None
        for nm in ("locA", "locB"):
            loc = loc_by_name(e, nm)
            if st[nm] is None:
                peaceful(ctx, loc, mv, f"on day {t}")
            else:
                atwar(ctx, loc, mv, st[nm][0], st[nm][1], f"on day {t}")
        e.evolve()
