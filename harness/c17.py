"""C17: the simulated network is exactly the one described by the input files."""
from .lib import *

BOUNDS = ("4 location lines: every assignment of 3 countries (or none) and of regions, every location type, every coordinate, population 0..10^7 with scale-down factors 1, 10, 100, every date of conflict -5..500, up to 2 attribute columns; "
          "up to 4 route lines with every length and every redirection value (and none), repeated pairs, 0-2 attribute columns, forced redirections; a comment or empty line at every position of every file; "
          "closures of every kind with every start and end day; up to 3 major routes; up to 3 preloaded people over every place (and an unknown one) with 0-3 attributes, taking people from the population on and off; the microscale reader with every type, road kind and redirection")
OUTSIDE = "malformed lines (missing coordinates columns, text in number cells); several comment lines with extra columns; location names with quotes or commas; file encodings other than utf-8"

TYPES = ["conflict_zone", "town", "camp", "idpcamp", "forwarding_hub", "marker", "flood_zone", "refugee camp", "default"]
MOVE = {"CampMoveChance": 0.0078125, "IDPCampMoveChance": 0.0625, "ConflictMoveChance": 0.75, "DefaultMoveChance": 0.25}
YMOVE = {"camp_movechance": 0.0078125, "idpcamp_movechance": 0.0625, "conflict_movechance": 0.75, "default_movechance": 0.25}


def cases(tier):
    T = tier == "thorough"
    cs = []
    for i, t in enumerate(TYPES):
        cs.append(dict(t="locs", types=[t, "town"], scale=[1, 10, 100][i % 3]))
        cs.append(dict(t="locs", types=["conflict_zone", t, "camp"], scale=[1, 10, 100][(i + 1) % 3], ncol=i % 3))
        if T:
            for j in range(3):
                for n in range(3):
                    cs.append(dict(t="locs", types=["town", t, t], scale=[1, 10, 100][j], ncol=n))
    cs.append(dict(t="country", n=4 if T else 3))
    for f in range(3):
        for kind in ("comment", "empty", "commented-line"):
            cs.append(dict(t="noise", file=f, kind=kind))
    for n in (1, 2, 3) + ((4,) if T else ()):
        for ncol in (0, 1, 2):
            cs.append(dict(t="routes", n=n, ncol=ncol))
    cs.append(dict(t="closures"))
    for pre in (None, "comment", "empty"):
        for take in (False, True):
            for ncol in (0, 1, 3):
                cs.append(dict(t="people", pre=pre, take=take, ncol=ncol))
    cs.append(dict(t="major"))
    for i in range(len(TYPES)):
        cs.append(dict(t="micro", types=[TYPES[i], TYPES[(i + 4) % len(TYPES)]], scale=[1, 10][i % 2], comment=i % 3))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def base(w, **kw):
    cfg = {"move_rules": YMOVE}
    cfg.update(kw)
    return settings(w, cfg)


def read(w, e, locs, routes, closures, loc_cols=(), link_cols=(), ig=None, header=True):
    hl = "#name,region,country,gps_x,gps_y,location_type,conflict_date,population" + "".join("," + c for c in loc_cols)
    hr = "#name1,name2,distance,forced_redirection" + "".join("," + c for c in link_cols)
    write("in/locations.csv", "\n".join(([hl] if header else []) + locs) + "\n")
    write("in/routes.csv", "\n".join(([hr] if header else []) + routes) + "\n")
    write("in/closures.csv", "\n".join(["#closure_type,name1,name2,closure_start,closure_end"] + closures) + "\n")
    ig = ig or w.InputGeography.InputGeography()
    ig.ReadLocationsFromCSV("in/locations.csv")
    ig.ReadLinksFromCSV("in/routes.csv")
    ig.ReadClosuresFromCSV("in/closures.csv")
    e, lm = ig.StoreInputGeographyInEcosystem(e)
    return ig, lm


def flags(ctx, loc, kind, inten, what):
    k = kind.lower()
    camp = "camp" in k
    want = dict(camp=camp, idpcamp=camp and "idp" in k, town=k in ("town", "default"), forward="forward" in k, marker=k == "marker", flood_zone=k == "flood_zone")
    for f, v in want.items():
        ctx.check(getattr(loc, f) == v, "type", f"{what} ({kind}): {f} is {getattr(loc, f)}")
    ctx.check(loc.conflict == (inten if "conflict" in k else -1.0), "type", f"{what} ({kind}): conflict intensity")
    mc = MOVE["IDPCampMoveChance"] if want["idpcamp"] else MOVE["CampMoveChance"] if camp else MOVE["ConflictMoveChance"] if "conflict" in k else 1.0 if want["forward"] or want["marker"] else MOVE["DefaultMoveChance"]
    ctx.check(loc.movechance == mc, "movechance", f"{what} ({kind}): chance of leaving {loc.movechance}")


def links_are(ctx, e, want):
    """want: list of (start name, end name, distance, forced, attributes)"""
    got = []
    for loc in e.locations:
        ctx.check(len(loc.closed_links) == 0, "links", f"{loc.name} has closed links")
        for l in loc.links:
            ctx.check(l.startpoint is loc, "links", f"a link of {loc.name} starts at {l.startpoint.name}")
            ctx.check(any(l.endpoint is x for x in e.locations), "links", f"a link of {loc.name} ends at an unknown place")
            ctx.check(l.closed is False or not l.closed, "links", f"link {l.name} closed")
            ctx.check(l.numAgents == 0 and l.cumNumAgents == 0, "links", f"people on link {l.name}")
            got.append(l)
    ctx.check(len({id(l) for l in got}) == len(got), "links", "one link object used twice")
    for a in {(s, t) for s, t, *_ in want} | {(l.startpoint.name, l.endpoint.name) for l in got}:
        g = [l for l in got if (l.startpoint.name, l.endpoint.name) == a]
        x = [y for y in want if (y[0], y[1]) == a]
        ctx.check(len(g) == len(x), "links", f"{len(g)} links from {a[0]} to {a[1]} for {len(x)} lines")
        for l, y in zip(g, x):     # in the order of the lines
            ctx.check_eq(l.get_distance(), y[2], "length", f"length of {a[0]} to {a[1]}")
            ctx.check(bool(l.forced_redirection) == y[3], "redirection", f"forced redirection from {a[0]} to {a[1]} is {l.forced_redirection}")
            ctx.check(dict(l.attributes) == y[4], "link-attributes", f"attributes of the link from {a[0]} to {a[1]}: {l.attributes}")


def locs(ctx, case):
    w = ctx.world()
    scale = case["scale"]
    base(w, optimisations={"hasten": scale})
    e = w.flee.Ecosystem()
    cols = ["gdp", "conflict_intensity"][:case.get("ncol", 0)]
    names = ["alpha", "beta", "gamma"]
    rows, want = [], []
    for n, k in zip(names, case["types"]):
        x, y = ctx.real("x" + n, -180, 180), ctx.real("y" + n, -90, 90)
        emptypop = ctx.flag("nopop" + n) if n == "beta" else False
        pop = ctx.int("pop" + n, 0, 10 ** 7)
        date = ctx.int("date" + n, -5, 500) if "conflict" in k else 0
        at = {}
        inten = 1.0
        for c in cols:
            if c == "conflict_intensity":
                inten = ctx.real(c + n, 0.001, 9)
            at[c] = f"{inten}" if c != "gdp" else "" if n == "alpha" and ctx.flag("emptygdp") else "rich" + n
        rows.append(",".join([n, "region" + n, "country", f"{x}", f"{y}", k, f"{date}", "" if emptypop else f"{pop}"] + [at[c] for c in cols]))
        want.append((n, x, y, k, 0 if emptypop else pop, date, at, inten))
    _, lm = read(w, e, rows, [], [], cols)
    ctx.check([l.name for l in e.locations] == names[:len(rows)], "locations", f"locations {[l.name for l in e.locations]}")
    ctx.check(list(lm) == names[:len(rows)] and all(lm[l.name] is l for l in e.locations), "map", "returned map of locations")
    ctx.check(list(e.locationNames) == names[:len(rows)], "locations", "list of location names")
    for loc, (n, x, y, k, pop, date, at, inten) in zip(e.locations, want):
        ctx.check_eq(loc.x, x, "coordinates", f"x of {n}")
        ctx.check_eq(loc.y, y, "coordinates", f"y of {n}")
        ctx.check(loc.region == "region" + n and loc.country == "country", "place", f"region and country of {n}")
        ctx.check(loc.foreign is False, "foreign", f"{n} is foreign")
        if "conflict" in k and date > 0:
            k = "town"
        flags(ctx, loc, k, inten, n)
        size = loc.capacity if "camp" in k else loc.pop
        ctx.check(band(size * scale <= pop, pop < (size + 1) * scale), "population", f"scaled population or capacity of {n}")
        ctx.check_eq(loc.pop if "camp" in k else loc.capacity, 0 if "camp" in k else -1, "population", f"the other one of population and capacity of {n}")
        ctx.check(dict(loc.attributes) == at, "attributes", f"attributes of {n}: {loc.attributes}")
        ctx.check(loc.numAgents == 0, "locations", f"people at {n}")
    links_are(ctx, e, [])


def country(ctx, case):
    w = ctx.world()
    base(w)
    e = w.flee.Ecosystem()
    n = case["n"]
    names = [f"place{i}" for i in range(n)]
    cs, rs = [], []
    for i, m in enumerate(names):
        cs.append(ctx.choice("country" + m, ["Alpha", "Beta", "", "unknown", "ALPHA"] if i < 3 else ["Alpha", "Beta", ""]))
        rs.append(ctx.choice("region" + m, ["north", ""]) if i < 2 else "Alpha")
    rows = [f"{m},{r},{c},1.5,2.5,{'camp' if i == 2 else 'town'},0,{i}" for i, (m, r, c) in enumerate(zip(names, rs, cs))]
    read(w, e, rows, [], [])
    ctx.check(len(e.locations) == n, "locations", "number of locations")
    for loc, m, c, r in zip(e.locations, names, cs, rs):
        ctx.check(loc.name == m, "locations", f"name {loc.name}")
        ctx.check(loc.country == (c or "unknown"), "place", f"country of {m}: {loc.country}")
        ctx.check(loc.region == (r or "unknown"), "place", f"region of {m}: {loc.region}")
        ctx.check(bool(loc.foreign) == ((c or "unknown") != (cs[0] or "unknown")), "foreign", f"{m} in {c!r} is foreign: {loc.foreign} (home {cs[0]!r})")


def noise(ctx, case):
    """a comment line, an empty line or a commented-out line anywhere changes nothing"""
    w = ctx.world()
    base(w)
    e = w.flee.Ecosystem()
    locs = ["alpha,reg,home,1.0,2.0,conflict_zone,0,100", "beta,reg,home,2.0,3.0,town,0,50", "gamma,reg,away,4.0,5.0,camp,0,70"]
    d = [ctx.real("dist0", 0.5, 1000), ctx.real("dist1", 0.5, 1000)]
    f = [ctx.choice("forced0", ["0", "1", "2", ""]), ctx.choice("forced1", ["0", "2"])]
    routes = [f"alpha,beta,{d[0]},{f[0]}", f"beta,gamma,{d[1]},{f[1]}"]
    t0, t1 = ctx.int("start", 0, 1000), ctx.int("end", -1, 1000)
    closures = [f"location,beta,,{t0},{t1}", f"country,home,away,{t0 + 1},{t1 + 1}"]
    files = [locs, routes, closures]
    extra = {"comment": ["# just a remark", "#", "#a,b", "##,,,"], "empty": ["", "\n"],
             "commented-line": ["#delta,reg,home,1.0,2.0,town,0,5", "#alpha,gamma,77,1", "#location,alpha,,0,10"]}[case["kind"]]
    F = files[case["file"]]
    for k in range(2):
        pos = ctx.choice(f"pos{k}", list(range(len(F) + 1)) + ["none"])
        if pos != "none":
            F.insert(pos, ctx.choice(f"what{k}", extra) if k == 0 else extra[0])
    read(w, e, locs, routes, closures, header=not ctx.flag("noheader"))
    ctx.check([l.name for l in e.locations] == ["alpha", "beta", "gamma"], "locations", f"{[l.name for l in e.locations]}")
    if len(e.locations) == 3:
        ctx.check([l.pop for l in e.locations] == [100, 50, 0] and e.locations[2].capacity == 70, "population", "populations and capacity")
        ctx.check([bool(l.foreign) for l in e.locations] == [False, False, True], "foreign", "foreign flags")
        ctx.check([(l.x, l.y) for l in e.locations] == [(1.0, 2.0), (2.0, 3.0), (4.0, 5.0)], "coordinates", "coordinates")
    want = []
    for (a, b), dd, ff in zip((("alpha", "beta"), ("beta", "gamma")), d, f):
        want += [(a, b, dd, ff == "2", {}), (b, a, dd, ff == "1", {})]
    links_are(ctx, e, want)
    ctx.check(len(e.closures) == 2, "closures", f"{len(e.closures)} closures")
    for c, x in zip(e.closures, (["location", "beta", "", t0, t1], ["country", "home", "away", t0 + 1, t1 + 1])):
        ctx.check(list(c[:3]) == x[:3], "closures", f"closure {c[:3]}")
        ctx.check_eq(c[3], x[3], "closures", "start")
        ctx.check_eq(c[4], x[4], "closures", "end")


def routes(ctx, case):
    w = ctx.world()
    base(w)
    e = w.flee.Ecosystem()
    locs = ["alpha,reg,home,1.0,2.0,conflict_zone,0,100", "alphabeta,reg,home,2.0,3.0,forwarding_hub,0,50", "gamma,reg,away,4.0,5.0,camp,0,70", "delta,reg,home,0,0,marker,0,"]
    pairs = [("alpha", "alphabeta"), ("gamma", "alpha"), ("alphabeta", "gamma"), ("alpha", "alphabeta"), ("delta", "alpha")]
    cols = ["max_move_speed", "surface"][:case["ncol"]]
    rows, want = [], []
    for i in range(case["n"]):
        a, b = pairs[ctx.choice(f"pair{i}", [0, 1, 2, 3, 4][i:i + 3]) if i < 2 else i]
        dist = ctx.real(f"dist{i}", 0.25, 5000)
        kind = ctx.choice(f"flag{i}", ["none", "empty", "number"]) if not case["ncol"] else ctx.choice(f"flag{i}", ["empty", "number"])
        r = [a, b, f"{dist}"]
        fwd = back = False
        if kind == "empty":
            r.append("")
        elif kind == "number":
            v = ctx.int(f"forced{i}", 0, 2)
            r.append(f"{v}")
            fwd, back = bool(v == 2), bool(v == 1)
        at = {}
        for c in cols:
            at[c] = {"max_move_speed": f"{100 + i}", "surface": "mud" + str(i)}[c]
            r.append(at[c])
        rows.append(",".join(r))
        want += [(a, b, dist, fwd, at), (b, a, dist, back, at)]
    read(w, e, locs, rows, [], link_cols=cols)
    ctx.check(len(e.locations) == 4, "locations", "number of locations")
    links_are(ctx, e, want)
    # later changes stay with one direction
    ls = all_links(e)
    before = [dict(l.attributes) for l in ls]
    ls[0].attributes["changed"] = "yes"
    ctx.check([dict(l.attributes) for l in ls[1:]] == before[1:], "link-attributes", "links share their attributes")


def micro(ctx, case):
    """the microscale reader: the same network, with the kind of every road"""
    from symx.mpi import Cluster
    cl = Cluster(ctx, 1)
    w = cl.worlds[0]
    scale = case["scale"]
    base(w, optimisations={"hasten": scale})
    names = ["alpha", "alphabeta", "gamma"]
    rows, want = [], []
    for i, n in enumerate(names):
        k = case["types"][i] if i < 2 else "town"
        x, y = ctx.real("x" + n, -180, 180), ctx.real("y" + n, -90, 90)
        pop = ctx.int("pop" + n, 0, 10 ** 7)
        date = ctx.int("date" + n, 0, 500) if "conflict" in k else 0
        nopop, c = (ctx.flag("nopop"), ctx.choice("country", ["Alpha", ""])) if i == 1 else (False, "Beta")
        rows.append(f"{n},reg{n},{c},{x},{y},{k},{date if i < 2 else ''},{'' if nopop else pop}")
        want.append((n, x, y, k, 0 if nopop else pop, date, c or "unknown"))
    pairs = [("alpha", "alphabeta"), ("gamma", "alphabeta")]
    routes, links = [], []
    for i, (a, b) in enumerate(pairs):
        d, v = ctx.real(f"dist{i}", 0.25, 5000), ctx.int(f"forced{i}", 0, 2)
        kind = ctx.choice(f"type{i}", ["walk", "drive", "crossing"])
        routes.append(f"{a},{b},{d},{v},{kind}")
        links += [(a, b, d, bool(v == 2), kind), (b, a, d, bool(v == 1), kind)]
    if case["comment"] == 1:
        routes.insert(1, "#alpha,gamma,77,1,walk")
        rows.insert(1, "#delta,reg,home,1.0,2.0,town,0,5")
    t0, t1 = ctx.int("start", 0, 1000), ctx.int("end", -1, 1000)
    got = []

    def go(r, w):
        e = w.pmicro_flee.Ecosystem()
        write("in/loc.csv", "#name,region,country,lat,lon,location_type,conflict_date,population\n" + "\n".join(rows) + "\n")
        write("in/links.csv", "#name1,name2,distance,forced_redirection,link_type\n" + "\n".join(routes) + "\n")
        write("in/closures.csv", f"#closure_type,name1,name2,closure_start,closure_end\nlocation,alpha,,{t0},{t1}\n")
        ig = w.micro_InputGeography.InputGeography()
        ig.ReadLocationsFromCSV("in/loc.csv")
        ig.ReadLinksFromCSV("in/links.csv")
        ig.ReadClosuresFromCSV("in/closures.csv")
        got.extend(ig.StoreInputGeographyInEcosystem(e))
    cl.each(go)
    e, lm = got
    ctx.check([l.name for l in e.locations] == names and list(lm) == names and all(lm[l.name] is l for l in e.locations), "locations", f"locations {[l.name for l in e.locations]}")
    for loc, (n, x, y, k, pop, date, c) in zip(e.locations, want):
        ctx.check_eq(loc.x, x, "coordinates", f"x of {n}")
        ctx.check_eq(loc.y, y, "coordinates", f"y of {n}")
        ctx.check(loc.country == c, "place", f"country of {n}: {loc.country}")
        if "conflict" in k and date > 0:
            k = "town"
        flags(ctx, loc, k, 1.0, n)
        size = loc.capacity if "camp" in k else loc.pop
        ctx.check(band(size * scale <= pop, pop < (size + 1) * scale), "population", f"scaled population or capacity of {n}")
    ls = all_links(e)
    ctx.check(len(ls) == 4, "links", f"{len(ls)} links for 2 roads")
    for i, (a, b, d, f, kind) in enumerate(links):
        found = [l for l in ls if l.startpoint.name == a and l.endpoint.name == b]
        ctx.check(len(found) == 1, "links", f"{len(found)} links from {a} to {b}")
        for l in found:
            ctx.check_eq(l.get_distance(), d, "length", f"length of {a} to {b}")
            ctx.check(bool(l.forced_redirection) == f, "redirection", f"forced redirection from {a} to {b} is {l.forced_redirection}")
    for i in (0, 2):
        ts = {l.link_type for l in ls if {l.startpoint.name, l.endpoint.name} == set(links[i][:2])}
        ctx.check(links[i][4] in ts and ts <= {links[i][4], None}, "link-type", f"kind of the road {links[i][0]}-{links[i][1]}: {ts}")
    ctx.check(len(e.closures) == 1 and list(e.closures[0][:3]) == ["location", "alpha", ""], "closures", f"{e.closures}")
    ctx.check_eq(e.closures[0][3], t0, "closures", "first day")
    ctx.check_eq(e.closures[0][4], t1, "closures", "last day")


def closures(ctx, case):
    w = ctx.world()
    base(w)
    e = w.flee.Ecosystem()
    locs = ["alpha,reg,home,1.0,2.0,conflict_zone,0,100", "beta,reg,away,2.0,3.0,camp,0,50"]
    rows, want = [], []
    for i in range(3):
        k = ctx.choice(f"kind{i}", ["location", "country", "camp", "idpcamp", "link", "remove_forced_redirection"]) if i < 2 else "link"
        a = ctx.int(f"start{i}", 0, 10000)
        b = ctx.int(f"end{i}", -1, 10000)
        n2 = "" if k in ("location", "camp", "idpcamp") else "beta"
        rows.append(f"{k},alpha,{n2},{a},{b}")
        want.append((k, "alpha", n2, a, b))
    read(w, e, locs, ["alpha,beta,10,0"], rows)
    ctx.check(len(e.closures) == 3, "closures", f"{len(e.closures)} closures")
    for c, x in zip(e.closures, want):
        ctx.check(tuple(c[:3]) == x[:3], "closures", f"closure {c[:3]} for line {x[:3]}")
        ctx.check_eq(c[3], x[3], "closures", "first day")
        ctx.check_eq(c[4], x[4], "closures", "last day")


def people(ctx, case):
    w = ctx.world()
    base(w, spawn_rules={"take_from_population": case["take"]})
    e = w.flee.Ecosystem()
    locs = ["alpha,reg,home,1.0,2.0,conflict_zone,0,100", "alphabeta,reg,home,2.0,3.0,town,0,50", "gamma,reg,away,4.0,5.0,camp,0,70"]
    ig, _ = read(w, e, locs, ["alpha,alphabeta,10,0"], [])
    cols = ["age", "gender", "religion"][:case["ncol"]]
    rows = []
    want = []
    if case["pre"]:
        rows.append("# people" if case["pre"] == "comment" else "")
    rows.append(",".join(["location"] + cols))
    vals = {"age": ["30", "7", "65"], "gender": ["male", "female", "other"], "religion": ["x", "", "z"]}
    for i in range(3):
        pl = ctx.choice(f"place{i}", ["alpha", "alphabeta", "gamma", "alph"]) if i < 2 else ctx.choice(f"place{i}", ["alpha", "gamma"])
        at = {c: vals[c][i] for c in cols}
        rows.append(",".join([pl] + [at[c] for c in cols]))
        if pl != "alph":
            want.append((pl, at))
        if ctx.flag(f"comment{i}"):
            rows.append("#alpha" + "".join("," + vals[c][0] for c in cols) if i != 1 else "")
    write("agents.csv", "\n".join(rows) + "\n")
    ig.ReadAgentsFromCSV(e, "agents.csv")
    ctx.check(len(e.agents) == len(want), "people", f"{len(e.agents)} people for {len(want)} lines with a known place")
    for a, (pl, at) in zip(e.agents, want):
        ctx.check(a.location is loc_by_name(e, pl) and a.home_location is a.location, "people-place", f"a person of {pl} is at {a.location.name}")
        ctx.check(dict(a.attributes) == at, "people-attributes", f"attributes {a.attributes} for {at}")
        ctx.check(not a.travelling and a.places_travelled == 1 and a.timesteps_since_departure == 0, "people", "a person starts with a history")
    for loc, p in zip(e.locations, (100, 50, 0)):
        n = sum(1 for pl, _ in want if pl == loc.name)
        ctx.check(loc.numAgents == n, "headcount", f"{loc.numAgents} people at {loc.name}, {n} lines")
        ctx.check_eq(loc.pop, p - n if case["take"] and p else p, "population", f"population of {loc.name}")


def major(ctx, case):
    """major routes belong to both their ends"""
    w = ctx.world()
    base(w)
    e = w.flee.Ecosystem()
    names = ["alpha", "beta", "gamma", "delta"]
    locs = [f"{n},reg,home,1.0,2.0,town,0,10" for n in names]
    lines = []
    for i in range(2):
        mr = ctx.choice(f"route{i}", [["alpha", "beta"], ["alpha", "beta", "gamma"], ["gamma", "beta", "alpha", "delta"], ["delta", "gamma", "beta"]])
        lines.append(mr)
    text = ""
    for i, mr in enumerate(lines):
        text += ",".join(mr) + ",," * ctx.choice(f"tail{i}", [0, 1]) + "\n"
        if ctx.flag(f"comment{i}"):
            text += "#alpha,gamma\n\n"
    write("in/major_routes.csv", text)
    read(w, e, locs, ["alpha,beta,10,0", "beta,gamma,10,0", "gamma,delta,5", "alpha,delta,5"], [])
    for loc in e.locations:
        want = []
        for mr in lines:
            if mr[0] == loc.name:
                want.append(mr[1:])
            if mr[-1] == loc.name:
                want.append(mr[-2::-1])
        ctx.check([list(r) for r in loc.major_routes] == want, "major-routes", f"major routes of {loc.name}: {loc.major_routes}, expected {want}")
