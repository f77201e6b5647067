"""C09: a location's attractiveness is the product of exactly its own factors, recomputed every day."""
from .lib import *

BOUNDS = ("3 locations of every kind (camp, IDP camp, auto-camp, town, conflict zone with given or symbolic intensity, flood zone, hub, marker), foreign or not, "
          "all foreign, camp and flood weights in [0,50] and conflict weights in (0,4], decay lists of up to 3 entries with every conflict age up to 4 days; "
          "up to 3 days with any change between days: type change, camp opening/closing, conflict start, end, change of intensity, flood level 0-2, capacity, population and occupancy changes")
OUTSIDE = "forecasting (C28); precomputed routing (C18); floating-point rounding"

TYPES = ["camp", "idpcamp", "auto", "town", "conflict", "flood_zone", "forwarding_hub", "marker", "explicit"]
OPS = ["none", "camp", "idpcamp", "town", "conflict_zone", "flood_zone", "open", "open_idp", "close", "start", "start_half", "stop", "level0", "level1", "level2", "noise"]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for k in TYPES:
        for f in (True, False):
            cs.append(dict(t="fresh", kind=k, foreign=f))
    for k in ("conflict", "town"):
        for i in (0.5, 1.0, 2.0, 0.25):
            for dec in ([1.0, 0.5, 0.0], [0.5], None, [2.0, 1.0]):
                for iv in (1, 2):
                    cs.append(dict(t="decay", kind=k, intensity=i, decay=dec, interval=iv, days=4))
    cs.append(dict(t="decay", kind="town", intensity="sym", decay=None, interval=1, days=2))
    for k in TYPES:
        for o in OPS:
            cs.append(dict(t="history", kind=k, first=o, days=3 if T else 2))
    for k in TYPES:
        cs.append(dict(t="others", kind=k))
    return cs


def harness(ctx, case):
    {"fresh": fresh, "decay": decay, "history": history, "others": others}[case["t"]](ctx, case)


class Ref:
    """what the location is, tracked from the operations only"""

    def __init__(self, kind, foreign):
        self.foreign = foreign
        self.level = None
        self.born = -1
        self.intensity = 0.0
        self.kind = None
        self.become(kind)

    def become(self, kind, intensity=1.0):
        self.kind = kind
        self.camp = "camp" in kind or kind == "auto"
        self.idp = "idp" in kind
        self.flood = kind == "flood_zone"
        self.intensity = intensity if kind.startswith("conflict") else 0.0


def weights(ctx):
    return dict(foreign_weight=ctx.real("foreign_weight", 0, 50), camp_weight=ctx.real("camp_weight", 0, 50),
                conflict_weight=ctx.real("conflict_weight", 0, 4, lo_open=True), idpcamp_movechance=0.25, default_movechance=0.25,
                flood_rules=dict(max_flood_level=2, flood_movechances=[0.0, 0.5, 1.0],
                                 flood_loc_weights=[3.0, ctx.real("flood_weight1", 0, 50), ctx.real("flood_weight2", 0, 50)]))


def decayfactor(case, age):
    d = case.get("decay")
    if not d:
        return 1.0
    return d[min(age // case["interval"], len(d) - 1)]


def expected(mv, r, t, case):
    s = 1.0
    if r.foreign:
        s = s * mv["foreign_weight"]
    if r.camp or r.idp:
        s = s * mv["camp_weight"]
    if is_sym(r.intensity) or r.intensity > 0:
        x = decayfactor(case, t - r.born) * r.intensity
        s = s * power(mv["conflict_weight"], x)
    if r.flood and r.level:
        s = s * mv["flood_rules"]["flood_loc_weights"][r.level]
    return s


def power(b, x):
    if not is_sym(x):
        if x == 0:
            return 1.0
        if x == 1:
            return b
        if x == 2:
            return b * b
        if x == 4:
            return b * b * b * b
    return b ** x


def make(e, name, kind, foreign, intensity=1.0, vary=None):
    kw = dict(name=name, x=0.0, y=0.0, capacity=-1, pop=100, foreign=foreign, country="f" if foreign else "d")
    if kind == "auto":
        kw["movechance"] = 0.001
    elif kind == "explicit":
        kw["movechance"] = 0.5
    else:
        kw["location_type"] = kind
        if kind == "conflict":
            kw["attributes"] = {"conflict_intensity": intensity}
    loc = e.addLocation(**kw)
    if vary:
        loc.capacity = vary.int(name + ".capacity", -1, 500)
        loc.pop = vary.int(name + ".pop", 0, 5000)
        loc.numAgents = vary.int(name + ".people", 0, 5000)
        loc.numAgentsSpawned = vary.int(name + ".spawned", 0, 5000)
    return loc


def fresh(ctx, case):
    w = ctx.world()
    mv = weights(ctx)
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    e.time = ctx.int("today", 0, 5000)
    a = make(e, "A", case["kind"], case["foreign"], vary=ctx)
    make(e, "B", "town", False, vary=ctx)
    e.linkUp("A", "B", distance=100.0)
    r = Ref(case["kind"], case["foreign"])
    e.evolve()
    ctx.check_eq(a.getScore(1), expected(mv, r, 0, case), "score", f"score of a {case['kind']}, foreign={case['foreign']}")
    ctx.check_eq(loc_by_name(e, "B").getScore(1), 1.0, "score", "score of a plain town")
    ctx.check_eq(link_between(e, "B", "A").endpoint.getScore(1), a.getScore(1), "score", "score seen through the link")


def decay(ctx, case):
    w = ctx.world()
    mv = weights(ctx)
    sp = dict(conflict_spawn_decay_interval=case["interval"])
    if case["decay"]:
        sp["conflict_spawn_decay"] = case["decay"]
    settings(w, {"move_rules": mv, "spawn_rules": sp})
    e = w.flee.Ecosystem()
    i = case["intensity"] if case["intensity"] != "sym" else ctx.real("intensity", 0, 4, lo_open=True)
    if case["intensity"] == "sym":
        ctx.assume(i >= 0.01)
    if case["kind"] == "conflict":
        a = make(e, "A", "conflict", False, i)
        r = Ref("conflict", False)
        r.intensity = i
        r.born = a.time_of_conflict
        start = -1
    else:
        a = make(e, "A", "town", False)
        r = Ref("town", False)
        start = ctx.choice("start", [0, 1])
    for d in range(case["days"]):
        if d == start:
            e.add_conflict_zone("A", i)
            r.become("conflict", i)
            r.born = d
        e.evolve()
        ctx.check_eq(a.getScore(1), expected(mv, r, d, case), "decay", f"score on day {d}, conflict started on day {r.born}")


def apply(ctx, e, a, r, o, day):
    if o in ("camp", "idpcamp", "town", "conflict_zone", "flood_zone"):
        e.change_location_type("A", o)
        r.become(o, float(a.attributes.get("conflict_intensity", 1.0)))
    elif o in ("open", "open_idp"):
        e.open_camp("A", IDP=o == "open_idp")
        r.become("idpcamp" if o == "open_idp" else "camp")
    elif o == "close":
        e.close_camp("A", IDP=r.idp)
        r.become("town")
    elif o in ("start", "start_half"):
        i = 1.0 if o == "start" else 0.5
        e.set_conflict_intensity("A", i)
        r.intensity = i
        r.born = day
    elif o == "stop":
        e.set_conflict_intensity("A", 0.0)
        r.intensity = 0.0
    elif o.startswith("level"):
        r.level = int(o[5:])
        a.setAttribute("flood_level", r.level)
    elif o == "noise":
        a.capacity = 5
        a.pop = 77
        a.numAgents = 12
        a.movechance = 0.25


def history(ctx, case):
    w = ctx.world()
    mv = weights(ctx)
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    a = make(e, "A", case["kind"], True, vary=ctx)
    make(e, "B", "town", False, vary=ctx)
    e.linkUp("A", "B", distance=100.0)
    r = Ref(case["kind"], True)
    e.time = ctx.int("today", 0, 5000)
    for d in range(case["days"]):
        o = case["first"] if d == 0 else ctx.choice(f"op{d}", OPS)
        apply(ctx, e, a, r, o, d)
        e.evolve()
        ctx.check_eq(a.getScore(1), expected(mv, r, d, case), "score", f"score on day {d} after {o}")
        ctx.check_eq(loc_by_name(e, "B").getScore(1), 1.0, "others", "score of the other location")
        ctx.observe(f"s{d}", a.getScore(1))


def others(ctx, case):
    """what happens at one location never shows in the score of another"""
    w = ctx.world()
    mv = weights(ctx)
    settings(w, {"move_rules": mv})
    e = w.flee.Ecosystem()
    rs = {}
    for nm, k, f in (("B", case["kind"], False), ("A", "flood_zone", True), ("C", case["kind"], True)):
        make(e, nm, k, f, vary=ctx)
        rs[nm] = Ref(k, f)
    e.linkUp("A", "B", distance=100.0)
    e.linkUp("A", "C", distance=100.0)
    e.time = ctx.int("today", 0, 5000)
    a = loc_by_name(e, "A")
    for d in range(2):
        o = ctx.choice(f"op{d}", OPS)
        apply(ctx, e, a, rs["A"], o, d)
        e.evolve()
        for nm, r in rs.items():
            ctx.check_eq(loc_by_name(e, nm).getScore(1), expected(mv, r, d, case), "others", f"score of {nm} on day {d}")
