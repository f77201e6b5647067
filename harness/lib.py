"""Shared helpers for harnesses (work the same in symbolic runs and in concrete replay)."""
from __future__ import annotations

from symx.core import (band, bnot, bor, frac, iff, implies, is_sym, ite, smax, smin)  # noqa: F401


def _y(v):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(_y(x) for x in v) + "]"
    if isinstance(v, str):
        return '"%s"' % v
    return repr(v) if isinstance(v, float) else str(v)


def yml(d, ind=0):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            if not v:
                continue
            out.append(" " * ind + f"{k}:")
            out.append(yml(v, ind + 2))
        else:
            out.append(" " * ind + f"{k}: {_y(v)}")
    return "\n".join(out)


def write(name, text):
    import os
    d = os.path.dirname(name)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(name, "w", encoding="utf-8") as f:
        f.write(text)


def settings(w, cfg=None, **sections):
    """read a settings file with the given content through the code's own reader"""
    cfg = dict(cfg or {})
    for k, v in sections.items():
        cfg[k] = dict(cfg.get(k) or {}, **v) if isinstance(v, dict) else v
    write("simsetting_sx.yml", yml(cfg) + "\n")
    return w.settings.ReadFromYML("simsetting_sx.yml")


def csv_text(rows):
    return "".join(",".join("" if c is None else (repr(c) if isinstance(c, float) else str(c)) for c in r) + "\n" for r in rows)


def all_links(e):
    """every link object that belongs to a location (open ones)"""
    return [l for loc in e.locations for l in loc.links]


def loc_by_name(e, n):
    for l in e.locations:
        if l.name == n:
            return l
    return None


def link_between(e, a, b):
    for l in loc_by_name(e, a).links:
        if l.endpoint.name == b:
            return l
    return None


def headcount_ok(ctx, e, label="headcount"):
    """counters of all locations and open links equal the people there; every person is at one known place"""
    places = {}
    for a in e.agents:
        if a.location is not None:
            places.setdefault(id(a.location), []).append(a)
    seen = set()
    for loc in e.locations:
        n = len(places.get(id(loc), []))
        seen.add(id(loc))
        ctx.check_eq(loc.numAgents, n, label, f"location {loc.name}: counter vs people there")
        for l in loc.links:
            n = len(places.get(id(l), []))
            seen.add(id(l))
            ctx.check_eq(l.numAgents, n, label, f"link {l.name}: counter vs people there")
    return places, seen


def vague(ctx, e, time=True, people=True, locs=True):
    """puts the simulation into an arbitrary (consistent) later state: every field the property does not speak about becomes symbolic,
    so that code which looks at one of them is explored for all its values"""
    if time:
        e.time = ctx.int("time", 0, 5000)
    if locs:
        for loc in e.locations:
            n = loc.name
            if locs is not True and n not in locs:
                continue
            loc.foreign = ctx.bool(n + ".foreign")
            loc.capacity = ctx.int(n + ".capacity", -1, 50)
            loc.pop = ctx.int(n + ".pop", 0, 5000)
            loc.numAgentsSpawned = ctx.int(n + ".spawned", 0, 5000)
    if people:
        for i, a in enumerate(e.agents):
            a.timesteps_since_departure = ctx.int(f"p{i}.days", 0, 5000)
            a.places_travelled = ctx.int(f"p{i}.places", 1, 100)
            a.recent_travel_distance = ctx.real(f"p{i}.recent", 0, 1)
            a.home_location = e.locations[-1]
            a.attributes["age"] = ctx.int(f"p{i}.age", 0, 90)
            a.attributes["gender"] = "male"
            if hasattr(a, "distance_travelled"):
                a.distance_travelled = ctx.real(f"p{i}.lifetime", 0, 100000)
