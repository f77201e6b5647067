"""C26: attributes of one entity never leak into another."""
from symx.mpi import Cluster

from .lib import *

BOUNDS = ("3 places, 4 roads in both directions and up to 6 people per simulation, created with attributes, without, with one dictionary handed to several, one by one, in bulk, from location, route and agent files, by daily displacement with demographics, by closing and reopening roads and places; "
          "up to two writes (setAttribute, direct, or the daily update from a flood table) of every number to any of them; sequential and parallel simulations; two simulations at once")
OUTSIDE = "values that are themselves mutable and shared by the caller (a list handed to two places stays one list)"


def cases(tier):
    cs = []
    for par in (False, True):
        for given in ("none", "empty", "shared", "own", "mixed"):
            for what in ("places", "roads", "people"):
                cs.append(dict(t="create", par=par, given=given, what=what))
        for op in ("close", "reopen", "reopen_loc", "days", "type"):
            cs.append(dict(t="later", par=par, op=op))
        cs.append(dict(t="two", par=par))
        cs.append(dict(t="files", par=par))
        cs.append(dict(t="agents_file", par=par))
        cs.append(dict(t="update", par=par))
        cs.append(dict(t="displaced", par=par))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def world(ctx, case):
    """the world and the module the simulation comes from"""
    if case["par"]:
        cl = Cluster(ctx, 1)
        w = cl.worlds[0]
        return w, w.pflee, (lambda f: cl.each(lambda r, _: f())[0])
    w = ctx.world()
    return w, w.flee, (lambda f: f())


def conf(w, **kw):
    settings(w, dict({"move_rules": dict(max_move_speed=100, max_walk_speed=100, awareness_level=1, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=0.0, conflict_movechance=0.0, capacity_buffer=1.0)}, **kw))


def entities(*es):
    out = []
    for k, e in enumerate(es):
        for l in e.locations:
            out.append((f"simulation {k} place {l.name}", l))
        for l in e.locations:
            for j in list(l.links) + list(l.closed_links):
                out.append((f"simulation {k} road {l.name}-{j.endpoint.name}", j))
        for i, a in enumerate(e.agents):
            out.append((f"simulation {k} person {i}", a))
        out.append((f"simulation {k}", e))
    return out


def snap(ents):
    return [dict(x.attributes) for _, x in ents]


def same(ctx, got, want, msg):
    ctx.check(set(got) == set(want), "leak", f"{msg}: attributes {sorted(got)}, expected {sorted(want)}")
    for k in want:
        a, b = got[k], want[k]
        if is_sym(a) or is_sym(b):
            ctx.check_eq(a, b, "leak", f"{msg}: attribute {k}")
        else:
            ctx.check(a == b, "leak", f"{msg}: attribute {k} is {a}, expected {b}")


def write_and_compare(ctx, ents, caller=(), n=2, only=None):
    """writes an attribute on some entities and compares all others with what they were"""
    caller0 = [dict(c) for c in caller]
    idx = [i for i, (name, _) in enumerate(ents) if only is None or only(name)]
    before = snap(ents)
    for step in range(n):
        t = ctx.choice(f"target{step}", idx)
        name, x = ents[t]
        key = ctx.choice(f"key{step}", ["shade", "weightA"])
        v = ctx.real(f"value{step}", -1000, 1000)
        if hasattr(x, "setAttribute") and ctx.flag(f"by method{step}"):
            x.setAttribute(key, v)
        else:
            x.attributes[key] = v
        before[t][key] = v
        for (other, y), want in zip(ents, before):
            same(ctx, y.attributes, want, f"after writing {key} of {name}: {other}")
    for c, c0 in zip(caller, caller0):
        same(ctx, c, c0, "dictionary of the caller")
    # and the other way round: the caller's own dictionary
    for c in caller:
        c["caller"] = 7
    for (other, y), want in zip(ents, before):
        same(ctx, y.attributes, want, f"after a change of the caller's dictionary: {other}")


def net(e, loc_attr, link_attr, kind="town"):
    for i, (n, k) in enumerate((("alpha", "conflict_zone"), ("beta", kind), ("campA", "camp"))):
        a = loc_attr(i)
        kw = {} if a is None else dict(attributes=a)
        e.addLocation(name=n, location_type=k, pop=1000, **kw)
    for i, (a, b) in enumerate((("alpha", "beta"), ("beta", "campA"))):
        x = link_attr(i)
        kw = {} if x is None else dict(attributes=x)
        e.linkUp(a, b, 100.0, **kw)


def giver(given, caller):
    shared = {"weightA": 1.0}
    if given in ("shared", "mixed"):
        caller.append(shared)

    def give(i):
        if given == "none":
            return None
        if given == "empty":
            return {}
        if given == "shared":
            return shared
        if given == "own":
            return {"weightA": float(i)}
        return [None, shared, shared, None, {}][i % 5]
    return give


def create(ctx, case):
    w, mod, run = world(ctx, case)
    conf(w)
    e = run(mod.Ecosystem)
    caller = []
    g = giver(case["given"], caller)
    if case["what"] == "places":
        net(e, g, lambda i: None)
        sel = "place"
    elif case["what"] == "roads":
        net(e, lambda i: None, g, ctx.choice("kind", ["town", "marker", "idpcamp"]))
        sel = "road"
    else:
        net(e, lambda i: None, lambda i: None)
        sel = "person"
        for i in range(2):
            a = g(i + 1)
            e.addAgent(e.locations[i], attributes={} if a is None else a)
            a = g(i + 2)
            if a is None:
                e.insertAgent(e.locations[i])
            else:
                e.insertAgent(e.locations[i], a)
        e.insertAgents(e.locations[2], 2)
    ents = entities(e)
    same(ctx, dict(e.attributes), {}, "attributes of a new simulation")
    write_and_compare(ctx, ents, caller, only=lambda n: sel in n or n.startswith("simulation 0") and n == "simulation 0")


def later(ctx, case):
    w, mod, run = world(ctx, case)
    conf(w)
    e = run(mod.Ecosystem)
    shared = {"weightA": 1.0}
    net(e, lambda i: shared, lambda i: shared)
    for i in range(2):
        e.addAgent(e.locations[i], shared)
    v = ctx.real("first", 0, 10)
    e.locations[0].links[0].setAttribute("early", v)
    op = case["op"]
    if op in ("close", "reopen"):
        run(lambda: e.close_link("alpha", "beta", twoway=True))
        if op == "reopen":
            run(lambda: e.reopen_link("alpha", "beta", twoway=True))
    elif op == "reopen_loc":
        run(lambda: e.close_location("beta", twoway=True))
        run(lambda: e.reopen_location("beta", twoway=True))
    elif op == "days":
        run(lambda: e.evolve())
    else:
        e.change_location_type("beta", "camp")
        e.add_conflict_zone("campA", 1.0)
    ents = entities(e)
    for name, x in ents:
        want = {} if x is e else dict(shared)
        if name == "simulation 0 road alpha-beta":
            want["early"] = v
        same(ctx, x.attributes, want, name)
    # the two directions of a road, and the roads of different places
    write_and_compare(ctx, ents, [shared], only=lambda n: "road" in n or n.endswith("alpha"))


def two(ctx, case):
    w, mod, run = world(ctx, case)
    conf(w)
    caller = []
    g = giver("shared", caller)
    way = ctx.choice("way", ["none", "shared"])
    es = []
    for k in range(2):
        e = run(mod.Ecosystem)
        net(e, g if way == "shared" else (lambda i: None), g if way == "shared" else (lambda i: None))
        e.addAgent(e.locations[0], g(0) if way == "shared" else {})
        e.insertAgents(e.locations[0], 1)
        es.append(e)
    write_and_compare(ctx, entities(*es), caller, n=1)


def files(ctx, case):
    """places and roads with attribute columns"""
    w, mod, run = world(ctx, case)
    conf(w)
    write("in/locations.csv", "#name,region,country,gps_x,gps_y,location_type,conflict_date,population,weightA,shade\n"
          "alpha,r,c,0,0,conflict_zone,0,1000,5,dark\nbeta,r,c,0,0,town,0,1000,6,light\ncampA,r,c,0,0,camp,0,1000,7,\n")
    write("in/routes.csv", "#name1,name2,distance,forced_redirection,weightA\nalpha,beta,100,0,2\nbeta,campA,100,1,3\n")
    write("in/closures.csv", "")
    w.settings.spawn_rules["TakeFromPopulation"] = False
    es = []
    for k in range(2):
        ig = w.InputGeography.InputGeography()
        ig.ReadLocationsFromCSV("in/locations.csv")
        ig.ReadLinksFromCSV("in/routes.csv")
        ig.ReadClosuresFromCSV("in/closures.csv")
        e = run(mod.Ecosystem)
        ig.StoreInputGeographyInEcosystem(e)
        es.append(e)
    for e in es:
        for n, v in (("alpha", 5), ("beta", 6), ("campA", 7)):
            ctx.check(float(loc_by_name(e, n).attributes["weightA"]) == v, "file", f"attribute of {n} from the file")
        for a, b, v in (("alpha", "beta", 2), ("beta", "alpha", 2), ("beta", "campA", 3), ("campA", "beta", 3)):
            l = [x for x in loc_by_name(e, a).links if x.endpoint.name == b]
            ctx.check(len(l) == 1 and float(l[0].attributes["weightA"]) == v, "file", f"attribute of road {a}-{b} from the file")
    write_and_compare(ctx, entities(*es), n=1)


def agents_file(ctx, case):
    w, mod, run = world(ctx, case)
    conf(w)
    write("in/agents.csv", "#location,weightA,shade\nlocation,weightA,shade\nalpha,1,dark\nalpha,1,dark\nbeta,2\nalpha,3,dark\n")
    e = run(mod.Ecosystem)
    net(e, lambda i: None, lambda i: None)
    ig = w.InputGeography.InputGeography()
    ig.ReadAgentsFromCSV(e, "in/agents.csv")
    e.insertAgents(e.locations[1], 1)
    want = [dict(weightA="1", shade="dark"), dict(weightA="1", shade="dark"), dict(weightA="2"), dict(weightA="3", shade="dark"), {}]
    ctx.check(len(e.agents) == 5, "file", f"{len(e.agents)} people")
    for a, x in zip(e.agents, want):
        same(ctx, a.attributes, x, "person from the file")
    write_and_compare(ctx, entities(e), only=lambda n: "person" in n)


def update(ctx, case):
    """the daily update from a flood table"""
    w, mod, run = world(ctx, case)
    conf(w)
    shared = {"weightA": 1.0}
    e = run(mod.Ecosystem)
    net(e, lambda i: shared if ctx.flag(f"shared{i}") else None, lambda i: shared)
    e.addAgent(e.locations[0], shared)
    ig = w.InputGeography.InputGeography()
    lv = {n: [ctx.choice(f"{n}{t}", [0, 2]) for t in range(2)] for n in ("alpha", "campA")}
    ig.attributes = {"flood_level": lv, "forecast_flood_levels": lv}
    ents = entities(e)
    before = snap(ents)
    for t in range(2):
        ig.UpdateLocationAttributes(e, "flood_level", t)
        for (name, x), want in zip(ents, before):
            if "place" in name:
                want["flood_level"] = lv.get(x.name, [0, 0])[t]
            same(ctx, x.attributes, want, f"after the update of day {t}: {name}")
    same(ctx, shared, {"weightA": 1.0}, "dictionary of the caller")
    e.addLocation(name="new", location_type="town")
    same(ctx, e.locations[-1].attributes, {}, "a place added later")
    e.insertAgents(e.locations[1], 1)
    same(ctx, e.agents[-1].attributes, {}, "a person added later")


class Flow:
    def get_daily_difference(self, *a, **k):
        return 2

    def get_field(self, *a, **k):
        return 2


def displaced(ctx, case):
    """people displaced by the conflict, with and without demographics"""
    w, mod, run = world(ctx, case)
    conf(w, spawn_rules=dict(insert_day0=True, take_from_population=False))
    if ctx.flag("demographics"):
        write("input_csv/demographics_weightA.csv", "weightA,Default\n4,1\n")
    e = run(mod.Ecosystem)
    net(e, lambda i: None, lambda i: None)
    w.spawning.add_initial_refugees(e, Flow(), e.locations[2])
    w.spawning.spawn_daily_displaced(e, 1, Flow())
    w.spawning.spawn_agents(e, 1)
    ctx.check(len(e.agents) == 5, "number", f"{len(e.agents)} people instead of 5")
    write_and_compare(ctx, entities(e), only=lambda n: "person" in n)
