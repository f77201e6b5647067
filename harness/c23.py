"""C23: camps acting as sinks retire people for good and touch nobody else."""
from .lib import *

BOUNDS = ("3 people in and out of 2 camps (every kind of camp, closed and reopened camps, places that become camps), 1-3 days; every deactivation chance in [0,1] given as a number, as text from the location file, or not at all; "
          "every random draw; people who arrive the same day, are under way, stand in towns or markers with a chance of their own; agent logging levels 0-2; removal of people from a place, new arrivals and every symbolic personal history afterwards")
OUTSIDE = "more people than 3 (people are retired one by one); whether a retired person's internal averages keep being updated"


def cases(tier):
    T = tier == "thorough"
    cs = []
    for how in ("number", "text", "file", "later"):
        for kind in ("camp", "idpcamp", "auto", "opened", "changed", "opened_idp"):
            if how == "file" and kind == "auto":
                continue
            cs.append(dict(t="standing", how=how, kind=kind, sink=True, days=2 if T else 1))
    for kind in ("town", "conflict_zone", "flood_zone", "forwarding_hub", "closed", "marker"):
        cs.append(dict(t="elsewhere", kind=kind))
    for s in (False, None):
        cs.append(dict(t="standing", how="number", kind="camp", sink=s, days=1))
    for lv in (0, 1, 2):
        for arr in (True, False):
            cs.append(dict(t="arrive", level=lv, arrive=arr))
            cs.append(dict(t="after", level=lv, op=["none", "clear", "add"][lv], camplog=arr))
    cs.append(dict(t="after", level=0, op="clear_camp", camplog=False))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def conf(w, sink, level=0, camplog=False, **mv):
    rules = dict(max_move_speed=200, max_walk_speed=200, awareness_level=1, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.5, conflict_movechance=0.5, avoid_short_stints=False, capacity_buffer=1.0)
    rules.update(mv)
    cfg = {"log_levels": dict(agent=level, camp=1 if camplog else 0), "move_rules": rules}
    if sink is not None:
        cfg["spawn_rules"] = {"camps_are_sinks": sink}
    settings(w, cfg)


def standing(ctx, case):
    """people who stand in two camps (and one who stands in a town) at the end of the day"""
    w = ctx.world()
    conf(w, case["sink"])
    e = w.flee.Ecosystem()
    p = {"campA": ctx.real("chanceA", 0, 1), "campB": ctx.choice("chanceB", [0, 1, None, "absent"])}
    kind, how = case["kind"], case["how"]

    def attr(v):
        return {} if v in (None, "absent") and not is_sym(v) else {"deactivation_probability": f"{v}" if how != "number" else v}
    if how == "file":
        write("in/locations.csv", "#name,region,country,gps_x,gps_y,location_type,conflict_date,population,deactivation_probability\n" +
              "".join(f"{n},r,c,0,0,{k},0,1000" + (("," + attr(v)["deactivation_probability"]) if attr(v) else "") + "\n"
                      for n, k, v in (("campA", {"camp": "camp", "idpcamp": "idpcamp"}.get(kind, "town"), p["campA"]), ("campB", "camp", p["campB"]), ("townT", "town", 1))))
        write("in/routes.csv", "campA,townT,100\n")
        write("in/closures.csv", "")
        ig = w.InputGeography.InputGeography()
        ig.ReadLocationsFromCSV("in/locations.csv")
        ig.ReadLinksFromCSV("in/routes.csv")
        ig.ReadClosuresFromCSV("in/closures.csv")
        ig.StoreInputGeographyInEcosystem(e)
    else:
        kw = dict(location_type=kind) if kind in ("camp", "idpcamp") else dict(movechance=0.001) if kind == "auto" else dict(location_type="town")
        e.addLocation(name="campA", x=0.0, y=0.0, capacity=1000, attributes={} if how == "later" else attr(p["campA"]), **kw)
        e.addLocation(name="campB", x=0.0, y=0.0, location_type="camp", capacity=1000, attributes=attr(p["campB"]))
        e.addLocation(name="townT", x=0.0, y=0.0, location_type="town", attributes={"deactivation_probability": 1.0})
        e.linkUp("campA", "townT", 100.0)
    A = loc_by_name(e, "campA")
    {"opened": lambda: e.open_camp("campA", False), "opened_idp": lambda: e.open_camp("campA", True), "changed": lambda: e.change_location_type("campA", "camp")}.get(kind, lambda: None)()
    if how == "later":
        A.setAttribute("deactivation_probability", attr(p["campA"])["deactivation_probability"])
    loc_by_name(e, "townT").movechance = A.movechance = 0.0
    where = ["campA", "campB", "townT", "campA"]
    for n in where:
        e.addAgent(loc_by_name(e, n), {})
    vague(ctx, e, time=True, people=True, locs=["campA"])
    people = list(e.agents)
    gone = set()
    for t in range(case["days"]):
        nd = len(ctx.draws)
        e.evolve()
        new = [d["value"] for d in ctx.draws[nd:] if d["kind"] == "random"]
        active = [i for i in range(len(people)) if i not in gone and where[i] != "townT"]
        posi = [i for i in active if attr(p[where[i]])]
        ctx.check(len(e.agents) == len(people) and all(x is y for x, y in zip(e.agents, people)), "list", "people removed from the simulation")
        for i, a in enumerate(people):
            if i in gone:
                ctx.check(a.location is None, "returned", "a retired person returned")
            elif i not in active:
                ctx.check(a.location is loc_by_name(e, where[i]), "outside", "a person outside the camps was touched")
            elif not case["sink"]:
                ctx.check(a.location is loc_by_name(e, where[i]), "off", "a person retired although camps are no sinks")
            else:
                c = p[where[i]]
                c = 0 if c in (None, "absent") and not is_sym(c) else c
                if a.location is None:
                    gone.add(i)
                    ctx.check(c > 0, "nobody", "a person retired in a camp without a chance")
                else:
                    ctx.check(a.location is loc_by_name(e, where[i]), "moved", "a person moved")
                    ctx.check(c < 1, "certain", "a person stayed active in a camp that retires everybody")
                # the draw of this person: the day's last draws belong to the people standing in camps, one each
                moves = 4 if t == 0 else 4 - len(was)
                left = len(new) - moves
                if left == len(active):
                    u = new[moves + active.index(i)]
                elif left == len(posi):
                    u = new[moves + posi.index(i)] if i in posi else None
                else:
                    u = None
                if u is not None:
                    ctx.check(iff(a.location is None, u < c), "draw", "a person is retired exactly if the draw falls below the chance")
        for n in ("campA", "campB", "townT"):
            ctx.check_eq(loc_by_name(e, n).numAgents, where.count(n), "headcount", f"headcount of {n} (retired people stay in it)")
        if case["sink"]:
            was = set(gone)
        else:
            was = set()


def elsewhere(ctx, case):
    """places that are no camps retire nobody, whatever their attributes say"""
    w = ctx.world()
    kind = case["kind"]
    mv = {}
    conf(w, True, **mv)
    e = w.flee.Ecosystem()
    k = "camp" if kind == "closed" else kind
    at = {"deactivation_probability": ctx.real("chance", 0, 1)}
    P = e.addLocation(name="place", x=0.0, y=0.0, location_type=k, attributes=at)
    e.addLocation(name="other", x=0.0, y=0.0, location_type="camp", capacity=100, attributes={"deactivation_probability": 0.0})
    e.linkUp("place", "other", 100.0)
    if kind == "closed":
        e.close_camp("place", ctx.flag("idp"))
    P.movechance = 0.0
    for i in range(2):
        e.addAgent(P, {})
    vague(ctx, e, locs=["place"])
    for t in range(2):
        e.evolve()
        for a in e.agents:
            ctx.check(a.location is P, "outside", f"a person in a {kind} was touched")


def arrive(ctx, case):
    """people who reach a camp that retires everybody are retired that same day, people under way are not"""
    w = ctx.world()
    conf(w, True, case["level"], default_movechance=1.0)
    e = w.flee.Ecosystem()
    d = ctx.real("distance", 1, 500)
    T = e.addLocation(name="townT", x=0.0, y=0.0, location_type="town")
    C = e.addLocation(name="campC", x=0.0, y=0.0, location_type="camp", capacity=100, attributes={"deactivation_probability": "1.0" if case["arrive"] else "0"})
    e.linkUp("townT", "campC", d)
    e.addAgent(T, {})
    e.addAgent(T, {})
    link = T.links[0]
    for t in range(3):
        nd = len(ctx.draws)
        e.evolve()
        for d_ in ctx.draws[nd:]:
            if d_["kind"] == "random":
                ctx.assume(d_["value"] < 1)
        arrived = 200 * (t + 1) > d
        for a in e.agents:
            if case["arrive"]:
                ctx.check(iff(a.location is None, arrived), "arrival", f"day {t}: retired {a.location is None}")
            else:
                ctx.check(a.location is not None, "nobody", "a person retired at a camp with chance 0")
                ctx.check(iff(a.location is C, arrived), "arrival", f"day {t}: arrival")
            ctx.check(bor(arrived, a.location is link), "under-way", f"day {t}: a person under way was touched")
        ctx.check_eq(link.numAgents, sum(1 for a in e.agents if a.location is link), "headcount", "people on the way")


def after(ctx, case):
    """later days: the others travel on as if nothing had happened"""
    w = ctx.world()
    conf(w, True, case["level"], case["camplog"], default_movechance=1.0)
    e = w.flee.Ecosystem()
    d = ctx.real("distance", 1, 700)
    C = e.addLocation(name="campC", x=0.0, y=0.0, location_type="camp", capacity=100, attributes={"deactivation_probability": "1.0"})
    T = e.addLocation(name="townT", x=0.0, y=0.0, location_type="town")
    D = e.addLocation(name="campD", x=0.0, y=0.0, location_type="camp", capacity=100)
    Z = e.addLocation(name="zoneZ", x=0.0, y=0.0, location_type="conflict_zone", pop=50)
    e.linkUp("townT", "campD", d)
    e.linkUp("campC", "campD", 50.0)
    order = ctx.choice("order", [0, 1])
    for n in ((C, T), (T, C))[order]:
        e.addAgent(n, {})
    vague(ctx, e, locs=["campC"], people=False)
    r, o = e.agents[order], e.agents[1 - order]
    e.evolve()
    ctx.check(r.location is None, "certain", "not retired")
    if r.location is not None:
        return
    frozen = (r.places_travelled, r.timesteps_since_departure, r.distance_travelled_on_link, bool(r.travelling), dict(r.attributes))
    if case["op"] == "clear":
        e.clearLocationsFromAgents(["zoneZ"])
    elif case["op"] == "clear_camp":
        e.clearLocationsFromAgents(["campC", "zoneZ"])
    elif case["op"] == "add":
        e.addAgent(Z, {})
        e.insertAgents(Z, 1)
    ctx.check(any(a is r for a in e.agents) and any(a is o for a in e.agents), "list", "people removed")
    for t in range(1, 4):
        ctx.check(iff(o.location is D, 200 * t > d), "others", f"day {t}: the other person at {getattr(o.location, 'name', None)}")
        e.evolve()
        ctx.check(r.location is None, "returned", "a retired person returned")
        now = (r.places_travelled, r.timesteps_since_departure, r.distance_travelled_on_link, bool(r.travelling), dict(r.attributes))
        ctx.check(now == frozen, "changed", f"a retired person changed from {frozen} to {now}")
        ctx.check(D.numAgents == (1 if o.location is D else 0), "headcount", "people at the other camp")
        ctx.check(T.numAgents == 0, "headcount", "people at the town")
    if case["op"] == "add":
        ctx.check(Z.numAgents == 2, "headcount", "people at the zone")
