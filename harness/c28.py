"""C28: flood levels act only where and when the flood input says."""
from .lib import *

BOUNDS = ("level tables of 2 listed places (and a listed name the network does not have) over 5 days, every level 0-2, columns in both orders; one person leaving a town, camp, flood zone, IDP camp, hub or conflict zone on each of 2 days (3 in the thorough run) with every override chance and every draw; "
          "the choice between two destinations of every kind with every level and weight, with and without precomputed routes; forecast: every window length 0-3, end of forecast 0-5, day 0-3, awareness 0-2, levels 0-2 inside and outside the window, all weights; level 0 everywhere with any configuration against flood rules off")
OUTSIDE = "levels above 2; flood-driven spawning (C14); a forecast of one day, which the code treats as none"

DEST = ("town", "camp", "flood_zone", "idpcamp", "conflict_zone")


def cases(tier):
    T = tier == "thorough"
    cs = []
    for order in (0, 1):
        for fc in (False, True):
            cs.append(dict(t="levels", order=order, fc=fc, days=3 if not T else 4, ghost=bool(order)))
    cs.append(dict(t="levels", order=0, fc=False, days=5, ghost=False, one=True))
    for k in DEST + ("marker", "forwarding_hub"):
        cs.append(dict(t="leave", kind=k, days=2 if not T else 3))
        cs.append(dict(t="choose", kind=k, days=2 if not T else 4, listed=True))
        cs.append(dict(t="zero", kind=k, fc=False))
    cs.append(dict(t="choose", kind="town", days=2, listed=True, aw=2))
    cs.append(dict(t="choose", kind="flood_zone", days=1, listed=True, aw=2))
    cs.append(dict(t="choose", kind="camp", days=2, listed=False))
    for k in ("town", "camp"):
        cs.append(dict(t="choose", kind=k, days=2, listed=True, fixed=True))
    cs.append(dict(t="onward", kind="town"))
    cs.append(dict(t="onward", kind="flood_zone"))
    for ts in (0, 1, 2, 3):
        for end in range(6):
            for kind in ("town", "flood_zone"):
                if T or (kind == "town") == (end % 2 == 0):
                    cs.append(dict(t="window", what="leave", ts=ts, end=end, kind=kind, fc=True))
                cs.append(dict(t="window", what="choose", ts=ts, end=end, kind=kind, fc=True))
            if ts > 1:
                cs.append(dict(t="exact", ts=ts, end=end, kind="flood_zone" if end % 2 else "town"))
                for kind in ("town", "camp", "flood_zone"):
                    cs.append(dict(t="attract", ts=ts, end=end, kind=kind))
                cs.append(dict(t="acts", ts=ts, end=end, kind="town" if end % 2 else "camp"))
    for kind in ("town", "flood_zone"):
        for what in ("leave", "choose"):
            cs.append(dict(t="window", what=what, ts=3, end=5, kind=kind, fc=False))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def conf(w, fc=False, ts=0, end=0, mv=(0.25, 0.5, 0.75), lw=(1.0, 0.5, 0.25), fw=(1.0,) * 8, aware=(0.5, 0.25, 1.0), **kw):
    rules = dict(flood_movechances=list(mv), flood_loc_weights=list(lw), max_flood_level=2)
    if fc:
        rules.update(flood_forecaster=True, flood_forecaster_timescale=ts, flood_forecaster_end_time=end, flood_forecaster_weights=list(fw), flood_awareness_weights=list(aware))
    m = dict(max_move_speed=100, max_walk_speed=100, awareness_level=1, default_movechance=0.375, conflict_movechance=0.875, camp_movechance=0.125, idpcamp_movechance=0.0625,
             camp_weight=2.0, conflict_weight=0.25, foreign_weight=1.0, avoid_short_stints=True)
    m.update(kw)
    settings(w, {"move_rules": dict(m, flood_rules=rules), "flood_level_input_file": "floods.csv",
                 "spawn_rules": dict(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True, flood_driven_spawning=dict(spawn_mode="constant", displaced_per_flood_day=[0, 0, 0]))})


BASE = dict(town=0.375, camp=0.125, idpcamp=0.0625, conflict_zone=0.875, flood_zone=0.375, marker=1.0, forwarding_hub=1.0)
SCORE = dict(town=1.0, camp=2.0, idpcamp=2.0, conflict_zone=0.25, flood_zone=1.0, forwarding_hub=1.0, marker=1.0)


def table(names, rows):
    write("floods.csv", "#Day" + "".join(", " + n for n in names) + "\n" + "".join(f"{t}," + ",".join(str(x) for x in r) + "\n" for t, r in enumerate(rows)))


def load(w, locs, routes):
    write("loc.csv", "#name,region,country,x,y,type,conflict_date,pop\n" + "".join(f"{n},reg,cx,0,0,{k},0,1000\n" for n, k in locs))
    write("routes.csv", "#a,b,d\n" + "".join(f"{a},{b},{d}\n" for a, b, d in routes))
    write("closures.csv", "#type,a,b,start,end\n")
    ig = w.InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("loc.csv")
    ig.ReadLinksFromCSV("routes.csv")
    ig.ReadClosuresFromCSV("closures.csv")
    e = w.flee.Ecosystem()
    ig.StoreInputGeographyInEcosystem(e)
    for l in e.locations:                 # conflict zones of a conflict input are not set up with flood rules on
        if any(n == l.name and k == "conflict_zone" for n, k in locs) and l.conflict <= 0:
            e.set_conflict_intensity(name=l.name, conflict_intensity=1.0)
    return ig, e


def level(ctx, name):
    return ctx.int(name, 0, 2)


def pick(seq, lv):
    r = seq[0]
    for i in range(1, len(seq)):
        r = ite(lv == i, seq[i], r)
    return r


def levels(ctx, case):
    """every day every location has the level of the input, 0 if it is not listed"""
    w = ctx.world()
    days = case["days"]
    names = ["locA"] if case.get("one") else ["locA", "locB"]
    total = days + 2 if case["fc"] else days
    lv = {n: [level(ctx, f"{n}{t}") if t < days else (t + len(n)) % 3 for t in range(total)] for n in names}
    cols = list(names)
    if case["ghost"]:
        cols.append("nowhere")
        lv["nowhere"] = [2] * total
    if case["order"]:
        cols.reverse()
    table(cols, [[lv[n][t] for n in cols] for t in range(total)])
    conf(w, fc=case["fc"], ts=2, end=total - 1)
    ig, e = load(w, [("locA", "flood_zone"), ("locB", "town"), ("locC", "town"), ("locD", "camp")], [("locA", "locB", 5000), ("locB", "locC", 5000), ("locC", "locD", 5000)])
    if not case["fc"]:
        for l in e.locations[1:]:       # the flood input decides, whatever the attribute was before
            l.attributes["flood_level"] = ctx.int("before" + l.name, 0, 2)
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for l in e.locations:
            want = lv[l.name][t] if l.name in names else 0
            ctx.check_eq(l.attributes.get("flood_level", 0), want, "level", f"flood level of {l.name} on day {t}")
            if case["fc"]:
                f = l.attributes.get("forecast_flood_levels")
                for d in range(total):
                    ctx.check_eq(f[d], lv[l.name][d] if l.name in names else 0, "forecast", f"forecast for {l.name} on day {d}, known on day {t}")
        e.evolve()


def start(ctx, e, place, **attrs):
    a0 = len(e.agents)
    e.addAgent(loc_by_name(e, place), dict(attrs))
    return e.agents[a0]


def leave(ctx, case):
    """level > 0: the configured chance instead of the location's; level 0: the location's own"""
    w = ctx.world()
    days, k = case["days"], case["kind"]
    lv = [level(ctx, f"level{t}") for t in range(days)]
    table(["locB", "locA"], [[2 * (t % 2), lv[t]] for t in range(days)])
    ch = [ctx.real(f"chance{i}", 0, 1) for i in range(3)]
    own = ctx.flag("own chance scaled")
    conf(w, mv=ch, movechance_pop_base=2000.0, movechance_pop_scale_factor=1.0 if own else 0.0)
    ig, e = load(w, [("locA", k), ("locB", "town"), ("locC", "flood_zone")], [("locA", "locB", 5000), ("locC", "locB", 5000)])
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        for place, l, kind in (("locA", lv[t], k), ("locC", 0, "flood_zone"))[:1 if t < days - 1 else 2]:
            loc = loc_by_name(e, place)
            if is_sym(loc.movechance):
                return
            base = BASE[kind] * (max(loc.pop - 1, loc.capacity) / 2000.0 if own else 1.0)
            want = ite(l > 0, pick(ch, l), base)
            gone(ctx, e, place, want, f"{place} on day {t}")
        e.time = t + 1


def gone(ctx, e, place, want, when):
    """one person at the place leaves iff the draw is below the wanted chance; the day is undone afterwards"""
    a = start(ctx, e, place)
    n = len(ctx.draws)
    e.evolve()
    dr = [d["value"] for d in ctx.draws[n:] if d["kind"] == "random"]
    left = a.location is not loc_by_name(e, place)
    if dr:
        ctx.check(iff(left, dr[0] < want), "chance", f"departure from {when} does not match the chance")
    else:
        ctx.check(iff(left, want >= 1), "chance", f"departure from {when} decided without a draw")
    e.agents.remove(a)
    a.location.numAgents -= 1
    loc_by_name(e, place).pop += 1


def choose(ctx, case):
    """level > 0 multiplies a destination's attractiveness by the configured weight"""
    w = ctx.world()
    days, k = case["days"], case["kind"]
    aw = case.get("aw", 1)
    lv = [level(ctx, f"level{t}") for t in range(days)]
    lw = [ctx.real(f"weight{i}", 0, 2, lo_open=True) for i in range(3)]
    if case["listed"]:
        table(["locB", "elsewhere"], [[lv[t], 2] for t in range(days)])
    else:
        table(["elsewhere"], [[lv[t]] for t in range(days)])
    conf(w, lw=lw, awareness_level=aw, default_movechance=1.0, fixed_routes=bool(case.get("fixed")))
    locs = [("locA", "town"), ("locB", k), ("locC", "town")]
    routes = [("locA", "locB", 5000), ("locA", "locC", 5000)]
    if aw == 2:
        locs = [("locA", "town"), ("locB", k), ("locM", "town"), ("locC", "town")]
        routes = [("locA", "locM", 2500), ("locM", "locB", 2500), ("locA", "locC", 5000)]
    ig, e = load(w, locs, routes)
    fac = {"locB": SCORE[k] / 5010.0, "locC": 1.0 / 5010.0, "locM": 1.0 / 2510.0}
    if k == "marker":
        return
    for t in range(days):
        ig.AddNewConflictZones(e, t)
        opts = weights(ctx, e, "locA")
        ctx.check(set(opts) == ({"locB", "locC"} if aw == 1 else {"locB", "locC", "locM"}), "options", f"destinations {sorted(opts)}")
        W = ite(lv[t] > 0, pick(lw, lv[t]), 1.0) if case["listed"] else 1.0
        for n in opts:
            if n != "locC":
                x, y = fac[n] * (W if n == "locB" else 1.0), fac["locC"]
                if case.get("fixed") and n == "locB":       # the table's weight times the destination's score again
                    x = x * SCORE[k] * W
                msg = f"day {t}: attractiveness of {n} relative to locC"
                if n == "locB" and k == "flood_zone":
                    d = opts[n] * y - opts["locC"] * x
                    d2 = opts[n] * y - opts["locC"] * x * W
                    ctx.check(bor(near(d), near(d2)), "attractiveness", msg)
                    ctx.check(near(d), "attractiveness", msg + ": the weight of a flood zone's level is applied twice", key="flood-zone-weight-twice")
                else:
                    ctx.check_eq(opts[n] * y, opts["locC"] * x, "attractiveness", msg)
        e.time = t + 1


def near(d):
    return band(d <= 1e-12, d >= -1e-12)


def weights(ctx, e, place, **attrs):
    """weights with which one person at the place chooses, by destination (their sum is arbitrary)"""
    a = start(ctx, e, place, **attrs)
    n = len(ctx.draws)
    e.evolve()
    dr = [d for d in ctx.draws[n:] if d["kind"] in ("choices", "np.choice") and d.get("weights") is not None]
    e.agents.remove(a)
    a.location.numAgents -= 1
    loc_by_name(e, place).pop += 1
    if not dr:
        return {}
    d = dr[0]
    out = {}
    for o, x in zip(d["options"], d["weights"]):
        out[o[-1] if isinstance(o, (list, tuple)) else str(o)] = x
    return out


def onward(ctx, case):
    """arriving in a town part-way through the day with nothing but a short stint behind means moving on for certain, whatever the flood level"""
    w = ctx.world()
    lv = [level(ctx, f"level{t}") for t in range(3)]
    ch = [ctx.real(f"chance{i}", 0, 1) for i in range(3)]
    table(["locB"], [[x] for x in lv])
    conf(w, mv=ch, default_movechance=0.5)
    ig, e = load(w, [("locA", "town"), ("locB", case["kind"]), ("locC", "town")], [("locA", "locB", 60), ("locB", "locC", 5000)])
    ig.AddNewConflictZones(e, 0)
    a = start(ctx, e, "locA")
    n = len(ctx.draws)
    e.evolve()
    dr = [d["value"] for d in ctx.draws[n:] if d["kind"] == "random"]
    ctx.check(len(dr) >= 1, "draw", "no draw for the departure")
    if not dr[0] < 0.5:
        ctx.check(a.location is loc_by_name(e, "locA"), "chance", "left although the draw is not below the chance")
        return
    moved = a.location is not loc_by_name(e, "locB")
    if case["kind"] == "town":
        ctx.check(moved, "onward", "a person with a short stint behind stayed in a town")
    elif len(dr) > 1:
        want = ite(lv[0] > 0, pick(ch, lv[0]), 0.5)          # one of the later draws decides about going on (another one about walking)
        ctx.check(bor(*[iff(moved, x < want) for x in dr[1:]]), "chance", "going on from a flood zone does not match its chance")


def zero(ctx, case):
    """level 0 everywhere changes nothing, whatever the configuration"""
    k = case["kind"]
    if k == "marker":
        return
    res = []
    ch = [ctx.real(f"chance{i}", 0, 1) for i in range(3)]
    lw = [ctx.real(f"weight{i}", 0, 5) for i in range(3)]
    own = ctx.real("own", 0.01, 1)
    for on in (True, False):
        w = ctx.world()
        table(["locB", "locA"], [[0, 0]] * 4)
        if on:
            conf(w, mv=ch, lw=lw, default_movechance=own)
        else:
            settings(w, {"move_rules": dict(max_move_speed=100, max_walk_speed=100, awareness_level=1, default_movechance=own, conflict_movechance=0.875, camp_movechance=0.125, idpcamp_movechance=0.0625,
                                            camp_weight=2.0, conflict_weight=0.25, foreign_weight=1.0, avoid_short_stints=True), "spawn_rules": dict(take_from_population=True)})
        ig, e = load(w, [("locA", "town"), ("locB", k), ("locC", "town")], [("locA", "locB", 5000), ("locA", "locC", 2500)])
        ig.AddNewConflictZones(e, 0)
        n = len(ctx.draws)
        a = start(ctx, e, "locA")
        e.evolve()
        dr = ctx.draws[n:]
        res.append((a.location is not loc_by_name(e, "locA"), [d["value"] for d in dr if d["kind"] == "random"],
                    {str(o): x for d in dr if d["kind"] == "choices" for o, x in zip(d["options"], d["weights"])}))
    (l1, r1, w1), (l2, r2, w2) = res
    if r1 and r2:
        ctx.assume(r1[0] == r2[0])
    ctx.check(l1 == l2, "nothing", "level 0 changes the decision to leave")
    if l1 and l2:
        ctx.check(set(w1) == set(w2), "nothing", "level 0 changes the destinations")
        for o in w1:
            ctx.check_eq(w1[o], w2[o], "nothing", f"level 0 changes the weight of {o}")


def one(ctx, case, rows, day, what, ts, end, fc, lw, fw, ch, aware, x, own=0.5):
    """what a person decides on the given day with the given table"""
    w = ctx.world()
    # when the choice between destinations matters, the place people start from is flooded so badly that they leave for certain
    table(["locB", "locA", "locC"], [[r, 2, 1] for r in rows])
    conf(w, fc=fc, ts=ts, end=end, lw=lw, fw=fw, mv=ch if what == "leave" else [0.25, 10000.0, 10000.0], aware=aware, default_movechance=own, camp_movechance=0.5)
    locs = [("locA", "town"), ("locB", case["kind"]), ("locC", "town")]
    routes = [("locA", "locB", 5000), ("locA", "locC", 2500)]
    ig, e = load(w, locs, routes)
    e.time = day
    ig.AddNewConflictZones(e, day)
    n = len(ctx.draws)
    a = start(ctx, e, "locB" if what == "leave" else "locA", floodawareness=x)
    e.evolve()
    dr = ctx.draws[n:]
    rnd = [d["value"] for d in dr if d["kind"] == "random"]
    left = a.location is not loc_by_name(e, "locB" if what == "leave" else "locA")
    ws = {}
    for d in dr:
        if d["kind"] in ("choices", "np.choice") and d.get("weights") is not None:
            for o, y in zip(d["options"], d["weights"]):
                ws[o[-1] if isinstance(o, (list, tuple)) else str(o)] = y
            break
    return left, rnd, ws


def inside(day, ts, end, fc):
    if not fc or day > end:
        return {day}
    return {day} | {d for d in range(day + 1, day + ts + 1) if d <= end}


def window(ctx, case):
    """two futures that agree on today and within the forecast window lead to the same decision"""
    ts, end, fc = case["ts"], case["end"], case["fc"]
    day = ctx.choice("day", [0, 1, 2, 3])
    keep = inside(day, ts, end, fc)
    ra = [level(ctx, f"level{t}") for t in range(8)]
    rb = [ra[t] if t in keep else level(ctx, f"otherlevel{t}") for t in range(8)]
    x = ctx.choice("awareness", [0, 2])
    if case["what"] == "leave":
        lw, fw = [1.0, ctx.real("weight1", 0, 1), ctx.real("weight2", 0, 1)], [0.5] * 8
    else:
        lw, fw = [1.0, 0.5, 0.25], [1.0, 0.5, 0.25, 0.125, 0.75, 0.375, 0.625, 0.875]
    ch = [0.25, ctx.real("chance1", 0, 1), ctx.real("chance2", 0, 1)]
    aware = [0.5, 0.25, 1.0]
    la, da, wa = one(ctx, case, ra, day, case["what"], ts, end, fc, lw, fw, ch, aware, x)
    lb, db, wb = one(ctx, case, rb, day, case["what"], ts, end, fc, lw, fw, ch, aware, x)
    msg = f"day {day}, forecast of {ts} days up to day {end}" + ("" if fc else " (off)")
    if case["what"] == "leave":
        if da and db:
            ctx.assume(da[0] == db[0])
        ctx.check(la == lb, "window", msg + ": the decision to leave depends on levels outside the window")
    else:
        ctx.check(set(wa) == set(wb), "window", msg + ": destinations depend on levels outside the window")
        for o in wa:
            if o in wb:
                ctx.check_eq(wa[o], wb[o], "window", msg + f": weight of {o} depends on levels outside the window")


def exact(ctx, case):
    """the chance of leaving is scaled by the awareness-weighted average over the days of the window"""
    ts, end = case["ts"], case["end"]
    day = ctx.choice("day", [0, 1, 2, 3])
    rows = [level(ctx, f"level{t}") for t in range(8)]
    x = ctx.choice("awareness", [0, 1, 2])
    lw = [1.0, ctx.real("weight1", 0, 1), ctx.real("weight2", 0, 1)]
    fw = [1.0, 0.5, 0.25, 0.125, 0.75, 0.375, 0.625, 0.875]
    ch = [0.25, 0.75, 1.0]
    aware = [0.5, 0.25, 1.0]
    left, dr, _ = one(ctx, case, rows, day, "leave", ts, end, True, lw, fw, ch, aware, x)
    if day <= end:
        s = 0.0
        for d in sorted(inside(day, ts, end, True) - {day}):
            s = s + ite(rows[d] > 0, pick(lw, rows[d]) * fw[d], 0.0)
        if day == end:
            s = ite(rows[end] > 0, pick(lw, rows[end]) * fw[end], 0.0)
        want = times(rows[day], ch, aware[x], s, ts)
    else:
        want = ite(rows[day] > 0, pick(ch, rows[day]), 0.5)
    ctx.check(len(dr) >= 1, "draw", "no draw for the departure")
    if dr:
        r = dr[0]
        ctx.check(bor(iff(left, r < want), band(r - want <= 1e-9, r - want >= -1e-9)), "forecast-chance", f"day {day}, forecast of {ts} days up to day {end}: departure does not match the chance")


def attract(ctx, case):
    """a destination's weight is scaled by its level's weight, the average over the days of the window and the person's awareness"""
    ts, end, k = case["ts"], case["end"], case["kind"]
    day = ctx.choice("day", [0, 1, 2, 3])
    rows = [level(ctx, f"level{t}") for t in range(8)]
    x = ctx.choice("awareness", [0, 2])
    lw = [1.0, 0.5, 0.25]
    fw = [1.0, 0.5, 0.25, 0.125, 0.75, 0.375, 0.625, 0.875]
    aware = [0.5, 0.25, 1.0]
    left, dr, ws = one(ctx, case, rows, day, "choose", ts, end, True, lw, fw, [0.25, 0.75, 1.0], aware, x)
    if not {"locB", "locC"} <= set(ws):
        ctx.check(False, "destinations", f"destinations {sorted(ws)}")
        return
    days = sorted(inside(day, ts, end, True) - {day})
    if day == end:
        days = [end]

    def average(lv):
        if day > end:
            return 1.0
        s = 0.0
        for d in days:
            s = s + ite(lv[d] > 0, pick(lw, lv[d]) * fw[d], 0.0)
        return s / ts

    def factor(n, score, dist, lv, twice=False):
        f = ite(lv[day] > 0, pick(lw, lv[day]), 1.0) * average(lv)
        return f * (f if twice else 1.0) * (aware[x] if day <= end else 1.0) * score / (dist + 10.0)

    msg = f"day {day}, forecast of {ts} days up to day {end}: attractiveness of locB"
    got = ws["locB"] * factor("locC", 1.0, 2500, [1] * 8)
    right = near(got - ws["locC"] * factor("locB", SCORE[k], 5000, rows))
    if k == "flood_zone":
        ctx.check(bor(right, near(got - ws["locC"] * factor("locB", SCORE[k], 5000, rows, True))), "forecast-attractiveness", msg)
        ctx.check(right, "forecast-attractiveness", msg + ": the weight of a flood zone's level is applied twice", key="flood-zone-weight-twice")
    else:
        ctx.check(right, "forecast-attractiveness", msg)


def times(lv, ch, aware, s, ts):
    r = s * (0.5 * aware / ts)
    for i in (1, 2):
        r = ite(lv == i, s * (ch[i] * aware / ts), r)
    return r


def acts(ctx, case):
    """every day of the window counts: one more flooded day in it makes a difference to the destination's weight, by people who are aware of it"""
    ts, end = case["ts"], case["end"]
    day = ctx.choice("day", [0, 1, 2, 3])
    inn = sorted(inside(day, ts, end, True) - {day})
    if not inn:
        return
    d = ctx.choice("which", inn)
    ra = [level(ctx, f"level{t}") for t in range(8)]
    ra[day] = 1
    ra[d] = 0
    rb = list(ra)
    rb[d] = ctx.choice("raised", [1, 2])
    lw = [1.0, 0.5, 0.25]
    fw = [1.0, 0.5, 0.25, 0.125, 0.75, 0.375, 0.625, 0.875]
    args = (day, "choose", ts, end, True, lw, fw, [0.25, 0.75, 1.0], [0.5, 0.25, 1.0], 2)
    la, da, wa = one(ctx, case, ra, *args)
    lb, db, wb = one(ctx, case, rb, *args)
    if "locB" in wa and "locB" in wb and "locC" in wa and "locC" in wb:
        ctx.check(wa["locB"] * wb["locC"] != wb["locB"] * wa["locC"], "acts", f"day {day}, forecast of {ts} days up to day {end}: a flood on day {d} makes no difference")
