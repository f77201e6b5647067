"""C14: the number of new people per day follows the data or the configured rule."""
from .lib import *

BOUNDS = ("data-driven: every series of daily counts 0..4 over 4 days (1 camp, total column or camp sum; thorough 2 camps, counts 0..6, 5 days), with and without day-zero insertion and empty camps; "
          "rule-driven: 3 locations (in conflict or flooded or neither), every intensity in [0.01,4] and population 0..20 with rates giving up to 4 people per location and day, constant, population share and "
          "Poisson modes (every drawn value 0..2), flood levels 0-2; taking people from the population on and off; 2 days; initial residents from data and attributes, every switch")
OUTSIDE = "larger numbers of people (same code per person); demographic attributes of the new people; what the daily difference of the data is (C15)"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for ins in (True, False):
        for sumc in (True, False):
            for empty in (True, False):
                cs.append(dict(t="data", ins=ins, sumc=sumc, empty=empty, days=4, mx=4 if not T else 6))
                if T:
                    cs.append(dict(t="data", ins=ins, sumc=sumc, empty=empty, days=5, mx=4))
                    cs.append(dict(t="data", ins=ins, sumc=sumc, empty=empty, days=3, mx=3, camps=2))
    cs.append(dict(t="data", ins=False, sumc=True, empty=True, days=3, mx=2, camps=2))
    cs.append(dict(t="data", ins=True, sumc=True, empty=False, days=3, mx=3, take=True))
    for mode in ("constant", "pop_ratio", "poisson", None):
        for take in (True, False):
            cs.append(dict(t="conflict", mode=mode, take=take))
    for mode in ("constant", "pop_ratio", "poisson"):
        cs.append(dict(t="flood", mode=mode))
    for ins in (True, False, None):
        for empty in (True, False, None):
            cs.append(dict(t="initial", ins=ins, empty=empty))
    return cs


def harness(ctx, case):
    {"data": data, "conflict": conflict, "flood": flood, "initial": initial}[case["t"]](ctx, case)


def table(w, ctx, camps, counts, total, start="2020-01-01", empty=False):
    write("data/layout.csv", "total,total.csv\n" + "".join(f"{c},{c}.csv\n" for c in camps))
    write("data/total.csv", "".join(f"2020-01-0{1 + t},{v}\n" for t, v in enumerate(total)))
    for c in camps:
        write(f"data/{c}.csv", "".join(f"2020-01-0{1 + t},{v}\n" for t, v in enumerate(counts[c])))
    return lambda: w.load("flee.datamanager.handle_refugee_data").RefugeeTable(csvformat="generic", data_directory="data", start_date=start, data_layout="layout.csv",
                                                                                start_empty=empty)


def data(ctx, case):
    w = ctx.world()
    sp = dict(insert_day0=case["ins"], sum_from_camps=case["sumc"], empty_camps_on_day0=case["empty"], take_from_population=bool(case.get("take")))
    settings(w, {"spawn_rules": sp})
    camps = ["campA", "campB"][:case.get("camps", 1)]
    days = case["days"]
    if case["sumc"]:
        counts = {c: [ctx.int(f"{c}{t}", 0, case["mx"]) for t in range(days)] for c in camps}
        total = [7] * days
    else:
        counts = {c: [5] * days for c in camps}
        total = [ctx.int(f"total{t}", 0, case["mx"]) for t in range(days)]
    if case["sumc"] and not case["ins"] and not case["empty"]:
        total = [0] * days     # the day-0 value of the camp sum contains the total column (recorded finding of C15)
    mk = table(w, ctx, camps, counts, total, empty=case["empty"])
    d = mk()
    ref = mk()
    e = w.flee.Ecosystem()
    src = e.addLocation(name="src", x=0.0, y=0.0, location_type="conflict_zone", capacity=-1, pop=3 if case.get("take") else 1000)
    src.foreign = ctx.bool("src.foreign")
    src.camp = ctx.bool("src.camp")
    for c in camps:
        e.addLocation(name=c, x=0.0, y=0.0, location_type="camp", capacity=50, pop=0)
    best = 0
    running = 0
    added = 0
    people = 0
    for t in range(days):
        diff = ref.get_daily_difference(t, SumFromCamps=case["sumc"])
        if t > 0 or not case["ins"]:
            running = running + diff
        if running > best:
            best = running
        before = [a for a in e.agents]
        n, raw, debt = w.spawning.spawn_daily_displaced(e, t, d)
        ctx.check(n >= 0, "negative", f"{n} new people on day {t}")
        added = added + n
        ctx.check_eq(added, best, "cumulative", f"people added up to day {t}")
        new = e.agents[len(before):]
        ctx.check(e.agents[:len(before)] == before, "append", "existing people replaced")
        ctx.check_eq(len(new), n, "number", f"people created on day {t} against the reported number")
        ctx.check(all(a.location is src for a in new), "place", "new people outside the conflict zone")
        ctx.check_eq(debt, best - running, "debt", f"debt after day {t}")
        people = people + len(new)
        ctx.check_eq(src.numAgents, people, "headcount", "people at the origin")
        if case.get("take"):
            ctx.check_eq(src.pop, smax(0, 3 - people), "population", "population of the origin")
        else:
            ctx.check(src.pop == (1000), "population", "population changed")
        if people and src.pop == 0:
            return
        e.time += 1


def conflict(ctx, case):
    w = ctx.world()
    mode = case["mode"]
    cfg = {"displaced_per_conflict_day": {"constant": 1, "pop_ratio": 0.125, "poisson": 2, None: 2}[mode]}
    if mode:
        cfg["spawn_mode"] = mode
    settings(w, {"spawn_rules": dict(conflict_driven_spawning=cfg, take_from_population=case["take"])})
    e = w.flee.Ecosystem()
    inten, pop = {}, {}
    for nm, k in (("locA", "conflict_zone"), ("locB", "town"), ("locC", "conflict_zone"), ("locD", "camp")):
        if nm == "locC":
            pop[nm] = 8
            inten[nm] = 0.5
        else:
            pop[nm] = ctx.int("pop" + nm, 0, 8) if nm == "locA" else 100
            inten[nm] = ctx.real("intensity" + nm, 0.01, 4 if mode != None else 2)
        e.addLocation(name=nm, x=0.0, y=0.0, location_type=k, capacity=-1, pop=pop[nm], attributes={"conflict_intensity": inten[nm]})
        if k != "conflict_zone":
            inten[nm] = 0
    rate = cfg["displaced_per_conflict_day"]
    for loc in e.locations:
        loc.foreign = ctx.bool(loc.name + ".foreign")
        loc.capacity = ctx.int(loc.name + ".capacity", -1, 500)
        loc.numAgents = ctx.int(loc.name + ".people", 0, 500)
        loc.conflict_date = ctx.int(loc.name + ".date", -1, 5000)
        loc.flood_zone = ctx.bool(loc.name + ".floods")
    loc_by_name(e, "locC").camp = ctx.bool("locC.camp")      # a camp that comes under attack
    t0 = ctx.int("t0", 0, 5000)
    e.time = t0
    for t in range(2):
        m = len(e.agents)
        nd = len(ctx.draws)
        total, _, _ = w.spawning.spawn_daily_displaced(e, t0 + t, None)
        new = e.agents[m:]
        pois = [d for d in ctx.draws[nd:] if d["kind"] == "poisson"]
        tot = 0
        for nm in inten:
            got = sum(1 for a in new if a.location.name == nm)
            if nm in ("locB", "locD"):
                ctx.check(got == 0, "others", f"{got} people start in {nm} although it is not in conflict")
                continue
            x = rate * inten[nm]
            if mode == "pop_ratio":
                x = x * pop[nm]
            if mode == "poisson":
                mine = [d for d in pois if d.get("used") is None]
                i = ["locA", "locC"].index(nm)
                ctx.check(len(pois) == 2, "poisson", f"{len(pois)} Poisson draws for two conflict zones")
                if len(pois) == 2:
                    ctx.check_eq(pois[i]["lam"], x, "poisson", f"mean for {nm}")
                    ctx.check_eq(got, pois[i]["value"], "number", f"people starting in {nm}")
            else:
                ctx.check(band(got <= x, x < got + 1), "number", f"{got} people start in {nm} ({mode})")
            tot += got
            if case["take"]:
                pop[nm] = smax(0, pop[nm] - got)
            ctx.check_eq(loc_by_name(e, nm).pop, pop[nm], "population", f"population of {nm}")
        ctx.check_eq(total, tot, "number", "reported number of people")
        ctx.check(len(new) == tot, "number", "people in unknown places")
        e.time += 1


def flood(ctx, case):
    w = ctx.world()
    mode = case["mode"]
    rates = {"constant": [0, 1, 3], "pop_ratio": [0.0, 0.125, 0.5], "poisson": [0, 1.5, 2]}[mode]
    settings(w, {"spawn_rules": dict(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True,
                                     flood_driven_spawning=dict(spawn_mode=mode, displaced_per_flood_day=rates))})
    e = w.flee.Ecosystem()
    pop = {}
    for nm, k in (("locA", "flood_zone"), ("locB", "town"), ("locC", "flood_zone")):
        pop[nm] = ctx.int("pop" + nm, 0, 9) if nm == "locA" else 5
        loc = e.addLocation(name=nm, x=0.0, y=0.0, location_type=k, capacity=-1, pop=pop[nm])
        loc.foreign = ctx.bool(nm + ".foreign")
        loc.capacity = ctx.int(nm + ".capacity", -1, 500)
        loc.numAgents = ctx.int(nm + ".people", 0, 500)
    for t in range(2):
        level = {}
        for nm in pop:
            level[nm] = ctx.choice(f"level{nm}{t}", [None, 0, 1, 2] if nm == "locA" else [0, 2][nm == "locC":][:1] if mode == "poisson" else [None, 2] if nm == "locB" else [0, 2])
            if level[nm] is not None:
                loc_by_name(e, nm).attributes["flood_level"] = level[nm]
            else:
                loc_by_name(e, nm).attributes.pop("flood_level", None)
        m = len(e.agents)
        nd = len(ctx.draws)
        total, _, _ = w.spawning.spawn_daily_displaced(e, t, None)
        new = e.agents[m:]
        pois = [d for d in ctx.draws[nd:] if d["kind"] == "poisson"]
        tot = 0
        for nm in pop:
            got = sum(1 for a in new if a.location.name == nm)
            if not level[nm]:
                ctx.check(got == 0, "others", f"{got} people start in {nm} although it is not flooded")
                continue
            r = rates[level[nm]]
            if mode == "poisson":
                ctx.check(len(pois) >= 1, "poisson", "no Poisson draw")
                if pois:
                    p = pois.pop(0)
                    ctx.check_eq(p["lam"], r, "poisson", f"mean for {nm}")
                    ctx.check_eq(got, p["value"], "number", f"people starting in {nm}")
            else:
                x = r * pop[nm] if mode == "pop_ratio" else r
                ctx.check(band(got <= x, x < got + 1), "number", f"{got} people start in {nm} at level {level[nm]} ({mode})")
            tot += got
            pop[nm] = smax(0, pop[nm] - got)
            ctx.check_eq(loc_by_name(e, nm).pop, pop[nm], "population", f"population of {nm}")
        ctx.check_eq(total, tot, "number", "reported number of people")
        ctx.check(len(new) == tot, "number", "people in unknown places")
        e.time += 1


def initial(ctx, case):
    w = ctx.world()
    sp = {}
    if case["ins"] is not None:
        sp["insert_day0"] = case["ins"]
    if case["empty"] is not None:
        sp["empty_camps_on_day0"] = case["empty"]
    settings(w, {"spawn_rules": sp})
    n = {c: ctx.int("count" + c, 0, 3) for c in ("campA", "campB")}
    idps = ctx.int("idps", 0, 3)
    d = table(w, ctx, ["campA", "campB"], {c: [n[c], 9] for c in n}, [20, 20], empty=bool(case["empty"]))()
    e = w.flee.Ecosystem()
    a = e.addLocation(name="campA", x=0.0, y=0.0, location_type="camp", capacity=50, pop=5, attributes={"initial_idps": idps})
    b = e.addLocation(name="campB", x=0.0, y=0.0, location_type="idpcamp", capacity=50, pop=5)
    e.addLocation(name="locC", x=0.0, y=0.0, location_type="conflict_zone", capacity=50, pop=5)
    for loc in (a, b):
        w.spawning.add_initial_refugees(e, d, loc)
    for loc in (a, b):
        exp = 0
        if not case["empty"]:
            if case["ins"] is not False:
                exp = exp + n[loc.name]
            if loc is a:
                exp = exp + idps
        got = sum(1 for x in e.agents if x.location is loc)
        ctx.check_eq(got, exp, "initial", f"people placed in {loc.name}")
        ctx.check_eq(loc.numAgents, exp, "initial", f"headcount of {loc.name}")
        ctx.check(loc.pop == 5, "population", "population of a camp changed")
    ctx.check(all(x.location is a or x.location is b for x in e.agents), "initial", "people elsewhere")
