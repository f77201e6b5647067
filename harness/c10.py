"""C10: closing and reopening affects exactly the named links and is reversible."""
from .lib import *

BOUNDS = ("networks of 3 (complete, chain, one with two parallel routes) and 4 locations (complete, star, ring, chain) in up to 2 countries, every length and one attribute symbolic; every sequence of 3 "
          "(3 locations) or 2 (4 locations) close/reopen operations on links, locations and borders, one- or two-way, with known and unknown names (the third of three reopens); "
          "thorough: any 3 operations, also on 4 locations")
OUTSIDE = "people on the links (C01, C02)"

NETS = {"tri": [(0, 1), (1, 2), (0, 2)], "chain3": [(0, 1), (1, 2)], "parallel": [(0, 1), (1, 2), (0, 1)],
        "full4": [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], "star4": [(0, 1), (0, 2), (0, 3)], "ring4": [(0, 1), (1, 2), (2, 3), (3, 0)],
        "chain4": [(0, 1), (1, 2), (2, 3)]}
SIZE = {"tri": 3, "parallel": 3, "chain3": 3}


def ops(n, countries, net):
    names = ["locA", "locB", "locC", "locD"][:n]
    linked = {(names[a], names[b]) for a, b in NETS[net]} | {(names[b], names[a]) for a, b in NETS[net]}
    out = []
    for mode in ("close", "reopen"):
        for two in (True, False):
            for a in names:
                for b in names:
                    if (a, b) in linked:
                        out.append([mode, "link", a, b, two])
            unlinked = [(a, b) for a in names for b in names if a != b and (a, b) not in linked]
            if unlinked:
                out.append([mode, "link", *unlinked[0], two])
            for a in names:
                out.append([mode, "location", a, None, two])
            cs = sorted(set(countries))
            for a in cs:
                for b in cs:
                    if a != b:
                        out.append([mode, "border", a, b, two])
        out.append([mode, "border", cs[0], cs[0], True])
        out.append([mode, "link", "locA", "nowhere", True])
        out.append([mode, "link", "nowhere", "locB", True])
        out.append([mode, "location", "nowhere", None, True])
        out.append([mode, "border", "cx", "nowhere", True])
        out.append([mode, "link", "locB", "locb", False])
    return out


def cases(tier):
    T = tier == "thorough"
    cs = []
    for net, countries, steps in (("tri", ["cx", "cx", "cy"], 3), ("chain3", ["cx", "cy", "cx"], 3), ("parallel", ["cx", "cx", "cy"], 2), ("full4", ["cx", "cy", "cx", "cy"], 2), 
                                  ("star4", ["cx", "cy", "cy", "cx"], 2), ("ring4", ["cx", "cx", "cy", "cy"], 2), ("chain4", ["cx", "cy", "cx", "cy"], 2)):
        if T:
            steps = 3
        for o in ops(len(countries), countries, net):
            if o[0] == "close" or o[2] == "locA":
                cs.append(dict(net=net, countries=countries, steps=steps, first=o, all=T))
    return cs


def txt(s):
    """the same text in a different object, as a name read from another file would be"""
    return "".join(list(s)) if s is not None else None


def run(e, o):
    mode, kind, a, b, two = o
    a, b = txt(a), txt(b)
    if kind == "location":
        (e.close_location if mode == "close" else e.reopen_location)(a, twoway=two)
    else:
        f = {("close", "link"): e.close_link, ("reopen", "link"): e.reopen_link, ("close", "border"): e.close_border, ("reopen", "border"): e.reopen_border}[mode, kind]
        f(a, b, twoway=two)


def matching(o, links, country):
    mode, kind, a, b, two = o
    if kind == "link":
        return [l for l in links if l[:2] == (a, b) or two and l[:2] == (b, a)]
    if kind == "location":
        return [l for l in links if l[1] == a or two and l[0] == a]
    return [l for l in links if (country[l[0]], country[l[1]]) == (a, b) or two and (country[l[0]], country[l[1]]) == (b, a)]


def harness(ctx, case):
    w = ctx.world()
    settings(w, {})
    e = w.flee.Ecosystem()
    n = SIZE.get(case["net"], 4)
    names = ["locA", "locB", "locC", "locD"][:n]
    country = dict(zip(names, case["countries"]))
    for nm in names:
        e.addLocation(name=nm, x=0.0, y=0.0, movechance=0.5, capacity=-1, pop=0, country=txt(country[nm]), foreign=country[nm] != country["locA"])
    length, attr, links = {}, {}, []
    for i, (x, y) in enumerate(NETS[case["net"]]):
        a, b = names[x], names[y]
        d = ctx.real(f"d{i}", 0, 1000, lo_open=True)
        v = ctx.real(f"v{i}", 0, 1000)
        e.linkUp(txt(a), txt(b), distance=d, attributes={"walk_probability": v, "tag": i})
        for l in ((a, b, i), (b, a, i)):
            length[l], attr[l] = d, v
            links.append(l)
    is_open = {l: True for l in links}
    flag = {}
    for loc in e.locations:
        for l in loc.links:
            k = (loc.name, l.endpoint.name, l.attributes["tag"])
            l.forced_redirection = flag[k] = ctx.bool(f"redirect{k[2]}{k[0]}") if case["net"] in ("chain3", "star4", "parallel") else len(flag) % 2 == 0
    for i, loc in enumerate(e.locations):
        if i == 1:
            e.change_location_type(loc.name, "camp")
        elif i == 2:
            e.change_location_type(loc.name, "conflict_zone")
        if case["net"] not in ("chain3", "star4", "parallel"):
            continue
        loc.capacity = ctx.int(loc.name + ".capacity", -1, 500)
        loc.pop = ctx.int(loc.name + ".pop", 0, 5000)
        loc.numAgents = ctx.int(loc.name + ".people", 0, 5000)
        for l in loc.links:
            l.numAgents = ctx.int(f"{l.name}{l.attributes['tag']}.people", 0, 5000)
            l.cumNumAgents = ctx.int(f"{l.name}{l.attributes['tag']}.cum", 0, 5000)
    e.time = ctx.int("time", 0, 5000)
    verify(ctx, e, names, links, is_open, length, attr, flag, "at the start", n)
    al = ops(n, case["countries"], case["net"])
    for s in range(case["steps"]):
        if s == 2 and not case.get("all"):
            al = [o for o in al if o[0] == "reopen"]
        k = 0 if s == 0 else ctx.choice(f"op{s}", list(range(-1, len(al))))
        if k < 0:
            break
        o = case["first"] if s == 0 else al[k]
        run(e, o)
        for l in matching(o, links, country):
            is_open[l] = o[0] == "reopen"
    verify(ctx, e, names, links, is_open, length, attr, flag, f"after {o}", n)


def verify(ctx, e, names, links, is_open, length, attr, flag, when, n):
    got = []
    for loc in e.locations:
        for l in loc.links:
            k = (loc.name, l.endpoint.name, l.attributes.get("tag"))
            got.append(k)
            ctx.check(l.startpoint is loc and l.endpoint is loc_by_name(e, l.endpoint.name), "ends", f"endpoints of {k} {when}")
            ctx.check(not l.closed, "flag", f"open link {k} marked closed {when}")
            if k in length:
                ctx.check_eq(l.get_distance(), length[k], "length", f"length of {k} {when}")
                ctx.check(iff(l.forced_redirection, flag[k]), "redirection", f"forced redirection of {k} {when}")
                ctx.check(set(l.attributes) == {"walk_probability", "tag"}, "attributes", f"attributes of {k} {when}")
                ctx.check_eq(l.attributes.get("walk_probability", -1.0), attr[k], "attributes", f"attribute of {k} {when}")
    exp = sorted(k for k in links if is_open[k])
    ctx.check(sorted(got) == exp, "links", f"open links {sorted(got)}, expected {exp} {when}")
    ctx.check(len(e.locations) == n and [l.name for l in e.locations] == names, "locations", f"locations changed {when}")
    # what a traveller can use
    vertices, edges = e.export_graph()[:2]
    ctx.check(sorted((a, b) for a, b, *_ in edges) == sorted(k[:2] for k in exp), "graph", f"exported graph {when}")
