"""C13: new arrivals originate in conflict zones in proportion to population times intensity times decay."""
from .lib import *

BOUNDS = ("3 locations (any mix of conflict zones, towns, camps) with all populations 0..10^6 and intensities in [0.01,10] (symbolic), decay lists of up to 3 entries "
          "(given, 0..1) with intervals 1-3, conflict ages 0..6; histories of up to 4 days in which conflicts start, stop, change type and populations shrink between or on days; "
          "1-3 arrivals per day through every entry point (daily arrivals, spawn_agents, pick_spawn_locations); the decay factor for every age 0..400 with symbolic entries")
OUTSIDE = "spawning from non-conflict locations (conflict_zone_spawning_only off); no conflict zone at all (no arrivals possible); floating-point rounding"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for n in (1, 2, 3):
        for api in ("pick", "spawn", "daily"):
            for k in (1, 2):
                cs.append(dict(t="weights", n=n, api=api, k=k, sym="intensity"))
            cs.append(dict(t="weights", n=n, api=api, k=1, sym="pop"))
    for dec, iv in (([1.0, 0.5, 0.25], 1), ([1.0, 0.5, 0.25], 2), ([0.5], 1), ([0.0, 1.0], 3), (None, 1)):
        for api in ("spawn", "daily"):
            cs.append(dict(t="history", dec=dec, iv=iv, api=api, days=4, take=False))
        cs.append(dict(t="history", dec=dec, iv=iv, api="daily", days=3 if not T else 4, take=True))
    for op in ("type", "camp", "closecamp", "file"):
        cs.append(dict(t="change", op=op))
    for n in (0, 1, 2, 3):
        for iv in (1, 2, 3, 30):
            cs.append(dict(t="decay", n=n, iv=iv))
    return cs


def harness(ctx, case):
    {"weights": weights, "history": history, "decay": decay, "change": change}[case["t"]](ctx, case)


class Data:
    """the daily arrivals handed to the code: n new people every day"""

    def __init__(self, n):
        self.n = n
        self.day0pops = {}

    def get_daily_difference(self, day, day_column=0, count_column=1, Debug=False, FullInterpolation=True, SumFromCamps=True):
        return self.n

    def get_field(self, name, day, FullInterpolation=True):
        return 0


def arrive(ctx, w, e, api, k, t, expect, label="proportional"):
    """k people arrive; their origins must be drawn with probability proportional to the expected weights"""
    n0 = len(ctx.draws)
    m = len(e.agents)
    if api == "pick":
        locs = e.pick_spawn_locations(k)
        locs = list(locs) if isinstance(locs, (list, tuple)) or hasattr(locs, "__len__") else [locs]
    else:
        if api == "spawn":
            w.spawning.spawn_agents(e, k)
        else:
            w.spawning.spawn_daily_displaced(e, t, Data(k))
        locs = [a.location for a in e.agents[m:]]
    ctx.check(len(locs) == k, "count", f"{len(locs)} arrivals instead of {k}")
    dr = [d for d in ctx.draws[n0:] if d["kind"] in ("np.choice", "choices")]
    seen = []
    total = 0.0
    for x in expect.values():
        total = total + x
    for d in dr:
        opts = [o.name if hasattr(o, "name") else e.locations[int(o)].name for o in d["options"]]
        ctx.check(d["weights"] is not None, label, "origins drawn without weights")
        if d["weights"] is None:
            return
        pt = 0.0
        for q in d["weights"]:
            pt = pt + q
        for nm, q in zip(opts, d["weights"]):
            ctx.check_eq(q * total, expect[nm] * pt, label, f"chance of {nm} on day {t}")
        seen += [o.name if hasattr(o, "name") else e.locations[int(o)].name for o in d["result"]]
    if total > 0 and len(expect) > 1 or dr:
        ctx.check(len(seen) == k, "independent", f"{len(seen)} draws for {k} arrivals")
        if len(seen) == k:
            ctx.check([l.name for l in locs] == seen, "placement", "people are not where the draw put them")
    for l in locs:
        ctx.check(expect[l.name] > 0, "origin", f"{l.name} has weight 0 but people arrive there")


def factor(dec, iv, age):
    if not dec:
        return 1.0
    return dec[min(int(age // iv), len(dec) - 1)]


def weights(ctx, case):
    w = ctx.world()
    settings(w, {"spawn_rules": {"insert_day0": False}})
    e = w.flee.Ecosystem()
    expect = {}
    some = False
    for i, nm in enumerate(["locA", "locB", "locC"][:case["n"]]):
        kind = ctx.choice("kind" + nm, ["conflict_zone", "town", "camp"]) if i else "conflict_zone"
        pop = ctx.int("pop" + nm, 0, 1000000) if case["sym"] == "pop" else (100, 1, 25000)[i]
        inten = ctx.real("intensity" + nm, 0.01, 10) if case["sym"] == "intensity" else (0.5, 1.0, 2.0)[i]
        e.addLocation(name=nm, x=0.0, y=0.0, location_type=kind, capacity=-1, pop=pop, attributes={"conflict_intensity": inten})
        expect[nm] = pop * inten if kind == "conflict_zone" else 0.0
    for loc in e.locations:
        loc.foreign = ctx.bool(loc.name + ".foreign")
        loc.capacity = ctx.int(loc.name + ".capacity", -1, 500)
        loc.numAgents = ctx.int(loc.name + ".people", 0, 500)
        loc.numAgentsSpawned = ctx.int(loc.name + ".spawned", 0, 500)
        loc.movechance = ctx.real(loc.name + ".movechance", 0, 1)
        loc.conflict_date = ctx.int(loc.name + ".date", -1, 5000)
        loc.flood_zone = ctx.bool(loc.name + ".floods")
        loc.marker = ctx.bool(loc.name + ".marker")
    e.time = ctx.int("time", 0, 5000)
    tot = 0.0
    for x in expect.values():
        tot = tot + x
    ctx.assume(tot > 0)
    arrive(ctx, w, e, case["api"], case["k"], 0, expect)


def history(ctx, case):
    w = ctx.world()
    sp = {"insert_day0": False, "take_from_population": case["take"]}
    if case["dec"]:
        sp.update(conflict_spawn_decay=case["dec"], conflict_spawn_decay_interval=case["iv"])
    settings(w, {"spawn_rules": sp, "move_rules": {"conflict_movechance": 1.0, "default_movechance": 1.0}})
    e = w.flee.Ecosystem()
    pops = {"locA": 3, "locB": 2, "locC": 4}
    for nm in pops:
        e.addLocation(name=nm, x=0.0, y=0.0, location_type="town", capacity=-1, pop=pops[nm])
    # nobody ever leaves: this is about arrivals
    st = {nm: None for nm in pops}
    for loc in e.locations:
        loc.conflict_date = 0
    e.locations[1].foreign = True
    e.locations[2].flood_zone = True
    e.add_conflict_zone("locA", 1.0)
    st["locA"] = (1.0, 0)
    for t in range(case["days"]):
        o = ctx.choice(f"o{t}", [["none"], ["set", "locB"], ["stop", "locA"], ["set", "locA"]] if t else [["none"], ["set", "locB"]])
        if o[0] == "set":
            v = ctx.real(f"v{t}", 0.01, 10)
            e.set_conflict_intensity(o[1], v)
            st[o[1]] = (v, t)
        elif o[0] == "stop":
            e.set_conflict_intensity(o[1], 0.0)
            st[o[1]] = None
        if all(x is None for x in st.values()):
            return
        expect = {nm: (st[nm][0] * factor(case["dec"], case["iv"], t - st[nm][1]) * pops[nm] if st[nm] is not None else 0.0) for nm in pops}
        tot = 0.0
        for x in expect.values():
            tot = tot + x
        if not tot > 0:
            return
        m = len(e.agents)
        arrive(ctx, w, e, case["api"], 1, t, expect, "current")
        if case["take"]:
            for a in e.agents[m:]:
                pops[a.location.name] = max(0, pops[a.location.name] - 1)
            for nm in pops:
                ctx.check(loc_by_name(e, nm).pop == pops[nm], "population", f"population of {nm}")
        e.evolve()


def change(ctx, case):
    """a conflict zone that becomes something else stops producing people at once"""
    w = ctx.world()
    settings(w, {"spawn_rules": {"insert_day0": False}})
    e = w.flee.Ecosystem()
    v = {}
    for nm in ("locA", "locB", "locC"):
        v[nm] = ctx.real("v" + nm, 0.01, 10)
        e.addLocation(name=nm, x=0.0, y=0.0, location_type="conflict_zone" if nm != "locC" else "town", capacity=-1, pop=100, attributes={"conflict_intensity": v[nm]})
    v["locC"] = 0.0
    for t in range(2):
        arrive(ctx, w, e, "daily", 1, t, v, "current")
        if t == 1:
            e.evolve()
            return
        if case["op"] == "type":
            e.change_location_type("locA", ctx.choice("to", ["town", "camp", "flood_zone"]))
            v["locA"] = 0.0
        elif case["op"] == "camp":
            e.open_camp("locA", IDP=ctx.flag("idp"))
            v["locA"] = 0.0
        elif case["op"] == "closecamp":
            e.close_camp("locA", IDP=ctx.flag("idp"))
            v["locA"] = 0.0
        else:
            e.change_location_type("locC", "conflict_zone")
            v["locC"] = 1.0 * loc_by_name(e, "locC").conflict


def decay(ctx, case):
    w = ctx.world()
    dec = [ctx.real(f"f{i}", 0, 2) for i in range(case["n"])]
    sp = {"conflict_spawn_decay_interval": case["iv"]}
    if dec:
        sp["conflict_spawn_decay"] = dec
    settings(w, {"spawn_rules": sp})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="locA", x=0.0, y=0.0, location_type="conflict_zone", capacity=-1, pop=1)
    age = ctx.int("age", 0, 400)
    start = ctx.int("start", 0, 50)
    a.time_of_conflict = start
    got = w.settings.get_location_conflict_decay(start + age, a)
    exp = 1.0
    for i, f in enumerate(dec):
        if i == 0 or age >= i * case["iv"]:
            exp = f
    ctx.check_eq(got, exp, "decay", f"decay factor, interval {case['iv']}")
    ctx.check_eq(w.settings.get_conflict_decay(age), exp, "decay", f"decay factor, interval {case['iv']}")
