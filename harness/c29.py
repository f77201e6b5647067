"""C29: spawned people get demographic attributes drawn with their place's weights."""
from symx.frames import pandas_for

from .lib import *

BOUNDS = ("every way people enter (initial camp population from attribute and from data, conflict-driven constant and by population, flood-driven, from refugee data, spawn_agents), 1-3 people on up to 2 days; "
          "1-3 attribute files with 2-4 rows, columns for none, some or all of the places, every weight 0..1000, every drawn row")
OUTSIDE = "missing Default columns and blank cells; weight columns whose sum is 0 (pandas refuses them); drawing inside pandas (its sample method is a stand-in: any row of positive weight may come); parallel runs"
ASSUMPTIONS = ["DataFrame.sample(n=1, weights=w) returns row i with a probability proportional to w[i], so any row of positive weight"]

VALUES = {"age": [10, 25, 40], "gender": ["female", "male"], "mother_tongue": ["ta", "tb", "tc", "td"], "share": [0.25, 0.5]}
FILES = {"none": {}, "age": {"age": ["Default", "locA"]}, "other": {"age": ["Default", "locZ"]}, "all": {"age": ["locA", "Default", "campC", "locB"]},
         "two": {"age": ["Default", "locA", "campC"], "gender": ["Default"]}, "under": {"mother_tongue": ["Default", "locA"]},
         "swap": {"gender": ["locB", "locA", "campC", "Default"], "age": ["Default"]},
         "one": {"share": ["locB", "Default"]},
         "three": {"mother_tongue": ["Default"], "age": ["Default", "locB", "locA"], "gender": ["Default", "campC"]}}
WAYS = ["initial", "initial_data", "constant", "pop_ratio", "flood", "data", "agents"]


def cases(tier):
    cs = []
    for way in WAYS:
        for f in FILES:
            cs.append(dict(way=way, files=f, n=1 if f in ("three", "swap", "two") else 3 if f == "one" else 2))
    if tier == "thorough":
        for way in WAYS:
            for f in ("age", "other", "all", "under") if way in WAYS[2:5] else FILES:
                if f != "three":
                    cs.append(dict(way=way, files=f, n=3))
    return cs


def harness(ctx, case):
    w = ctx.world(modules={"pandas": pandas_for(ctx)})
    way, n = case["way"], case["n"]
    two = way in ("constant", "pop_ratio", "flood") and case["files"] != "three"
    sp = dict(insert_day0=way == "initial_data", take_from_population=False)
    mv = {}
    if way == "constant":
        sp["conflict_driven_spawning"] = dict(spawn_mode="constant", displaced_per_conflict_day=n)
    if way == "pop_ratio":
        sp["conflict_driven_spawning"] = dict(spawn_mode="pop_ratio", displaced_per_conflict_day=n / 64)
    if way == "flood":
        sp.update(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True)
        sp["flood_driven_spawning"] = dict(spawn_mode="constant", displaced_per_flood_day=[0, n, n])
        mv = {"flood_rules": {"flood_movechances": [0.0, 0.5, 1.0], "flood_loc_weights": [1.0, 1.0, 1.0]}}
    settings(w, {"spawn_rules": sp, "move_rules": mv})
    e = w.flee.Ecosystem()
    A = e.addLocation(name="locA", location_type="conflict_zone", pop=64)
    B = e.addLocation(name="locB", location_type="conflict_zone" if two else "town", pop=64)
    C = e.addLocation(name="campC", location_type="camp", capacity=100)
    for loc in (A, B, C):
        loc.foreign = ctx.bool(loc.name + ".foreign")
    B.country, C.country = "Abroad", "Abroad"
    if way == "initial":
        C.attributes["initial_idps"] = n
    if way == "flood":
        A.attributes["flood_level"] = 1
        B.attributes["flood_level"] = 2 if two else 0
    table = {}
    for at, cols in FILES[case["files"]].items():
        table[at] = {c: [ctx.real(f"{at}.{c}.{i}", 0, 1000) for i in range(len(VALUES[at]))] for c in cols}
        for c in cols:
            tot = 0
            for x in table[at][c]:
                tot = tot + x
            ctx.assume(tot > 0.001)
        write(f"input_csv/demographics_{at}.csv", at + "," + ",".join(cols) + "\n" + "".join(f"{v}," + ",".join(str(table[at][c][i]) for c in cols) + "\n" for i, v in enumerate(VALUES[at])))
    write("input_csv/routes.csv", "#nothing\n")

    class Data:
        day0pops = {}

        def get_field(self, name, day, FullInterpolation=True):
            return n if name == "campC" and way == "initial_data" else 0

        def get_daily_difference(self, day, *a, **k):
            return n

    d = Data()
    w.spawning.add_initial_refugees(e, d, C)
    if way not in ("initial", "initial_data"):
        for t in range(1, 3 if n == 1 and (not two or case["files"] not in ("two", "swap")) else 2):
            if way == "agents":
                w.spawning.refresh_spawn_weights(e)
                w.spawning.spawn_agents(e, n)
            else:
                w.spawning.refresh_spawn_weights(e)
                w.spawning.spawn_daily_displaced(e, t, d)
    ctx.check(len(e.agents) >= n, "enter", f"{len(e.agents)} people entered by {way}")
    # the draws of each attribute, in order
    got = {at: [] for at in table}
    for dr in ctx.draws:
        if dr["kind"] in ("sample", "choices", "np.choice") and dr.get("weights") is not None:
            for at in table:
                if len(dr["weights"]) == len(VALUES[at]) and not any(hasattr(o, "movechance") for o in dr["options"]):
                    for r in dr["result"]:
                        got[at].append((r if dr["kind"] == "sample" or not isinstance(r, str) and r in range(len(VALUES[at])) else VALUES[at].index(r), list(dr["weights"])))
    for i, a in enumerate(e.agents):
        ctx.check(set(a.attributes) == set(table), "names", f"attributes {sorted(a.attributes)} of person {i}, files for {sorted(table)}")
        for at in table:
            if at not in a.attributes:
                continue
            ctx.check(len(got[at]) == len(e.agents), "once", f"{len(got[at])} draws of {at} for {len(e.agents)} people")
            if i >= len(got[at]):
                continue
            row, wt = got[at][i]
            ctx.check(a.attributes[at] == VALUES[at][row], "value", f"person {i} has {at} {a.attributes[at]!r}, drawn row {row} ({VALUES[at][row]!r})")
            col = a.location.name if a.location.name in table[at] else "Default"
            exp = table[at][col]
            te, tw = 0, 0
            for x, y in zip(exp, wt):
                te, tw = te + x, tw + y
            for k in range(len(exp)):
                if wt[k] is exp[k] or not ctx.symbolic and wt[k] == exp[k]:
                    continue
                ctx.check(bor(wt[k] == exp[k], close(wt[k] * te, exp[k] * tw)), "weights", f"weight of row {k} of {at} for a person of {a.location.name}: {wt[k]}, file column {col} says {exp[k]}")
    ctx.observe("draws", [len(v) for v in got.values()])


def close(x, y):
    d = x - y
    return band(d <= 1e-6 * (1 + abs(y)), -d <= 1e-6 * (1 + abs(y)))
