"""Builds small simulations from a case description and applies operations between days."""
from __future__ import annotations

from .lib import *

NAMES = ["A", "B", "C", "D"]


def build(ctx, w, case, ecosystem=None):
    """case: locs [dict(...)], edges [[a, b, dist, attrs]]; numbers given as strings "s:lo:hi" become symbolic"""
    e = ecosystem if ecosystem is not None else w.flee.Ecosystem()
    for i, l in enumerate(case["locs"]):
        kw = dict(name=NAMES[i], x=0.0, y=0.0, movechance=0.5, capacity=-1, pop=0)
        kw.update({k: sym(ctx, f"{NAMES[i]}.{k}", v) for k, v in l.items()})
        e.addLocation(**kw)
    for i, ed in enumerate(case["edges"]):
        a, b, d = ed[:3]
        attrs = {k: sym(ctx, f"e{i}.{k}", v) for k, v in (ed[3] if len(ed) > 3 else {}).items()}
        more = {"forced_redirection": True} if len(ed) > 4 and ed[4] else {}
        e.linkUp(a, b, distance=sym(ctx, f"e{i}.d", d), attributes=attrs, **more)
    return e


def sym(ctx, name, v):
    """"r:lo:hi" real in [lo,hi]; "R:lo:hi" real in (lo,hi]; "i:lo:hi" integer; anything else is itself"""
    if isinstance(v, str) and len(v) > 2 and v[1] == ":":
        k, lo, hi = v.split(":")
        if k == "i":
            return ctx.int(name, int(lo), int(hi))
        return ctx.real(name, float(lo), float(hi), lo_open=(k == "R"))
    if isinstance(v, dict):
        return {k: sym(ctx, f"{name}.{k}", x) for k, x in v.items()}
    return v


def op(e, o):
    """one operation between days"""
    k = o[0]
    if k == "none":
        return
    if k == "add":
        e.addAgent(loc_by_name(e, o[1]), dict(o[2]) if len(o) > 2 else {})
    elif k == "insert":
        e.insertAgents(loc_by_name(e, o[1]), o[2])
    elif k == "close_link":
        e.close_link(o[1], o[2], twoway=o[3])
    elif k == "reopen_link":
        e.reopen_link(o[1], o[2], twoway=o[3])
    elif k == "close_location":
        e.close_location(o[1], twoway=o[2])
    elif k == "reopen_location":
        e.reopen_location(o[1], twoway=o[2])
    elif k == "close_border":
        e.close_border(o[1], o[2], twoway=o[3])
    elif k == "reopen_border":
        e.reopen_border(o[1], o[2], twoway=o[3])
    elif k == "clear":
        e.clearLocationsFromAgents(list(o[1]))
    else:
        raise KeyError(k)
