"""C22: every documented setting takes effect, and unset ones get their defaults."""
from symx import core, shims

from .lib import *

BOUNDS = ("every documented setting alone and every pair of them, each with every value of its type, the other settings and sections absent or empty, and the same after a file with any other setting was read before; "
          "flood settings together with the options they need; every combination of the contradictory spawn options; switching between the first version's rules and the present ones")
OUTSIDE = "values of the wrong type; three or more settings that interact only together; settings nobody documents; what each setting does to the simulation (the other properties use the settings from files)"

INF = 10 ** 6
S, M, L, O = "spawn_rules", "move_rules", "log_levels", "optimisations"
REAL, INT, BOOL = "real", "int", "bool"
# section, name, kind, default, where the simulation looks it up
PLAIN = [
    (L, "agent", INT, 0, (L, "agent")), (L, "link", INT, 0, (L, "link")), (L, "camp", INT, 0, (L, "camp")), (L, "conflict", INT, 0, (L, "conflict")), (L, "init", INT, 0, (L, "init")),
    (L, "idp_totals", INT, 0, (L, "idp_totals")), (L, "granularity", ["location", "region"], "location", (L, "granularity")),
    (S, "take_from_population", BOOL, False, (S, "TakeFromPopulation")), (S, "insert_day0", BOOL, True, (S, "InsertDayZeroRefugeesInCamps")), (S, "empty_camps_on_day0", BOOL, False, (S, "EmptyCampsOnDay0")),
    (S, "conflict_zone_spawning_only", BOOL, True, (S, "conflict_zone_spawning_only")), (S, "camps_are_sinks", BOOL, False, (S, "camps_are_sinks")), (S, "read_from_agents_csv_file", BOOL, False, (S, "read_from_agents_csv_file")),
    (S, "sum_from_camps", BOOL, True, (S, "sum_from_camps")), (S, "conflict_spawn_decay", "reals", None, (S, "conflict_spawn_decay")), (S, "conflict_spawn_decay_interval", INT, 30, (S, "conflict_spawn_decay_interval")),
    (M, "max_move_speed", REAL, 360.0, (M, "MaxMoveSpeed")), (M, "max_walk_speed", REAL, 35.0, (M, "MaxWalkSpeed")), (M, "max_crossing_speed", REAL, 20.0, (M, "MaxCrossingSpeed")),
    (M, "foreign_weight", REAL, 1.0, (M, "ForeignWeight")), (M, "camp_weight", REAL, 1.0, (M, "CampWeight")), (M, "conflict_weight", REAL, 1.0 / 3.16227766017, (M, "ConflictWeight")),
    (M, "conflict_movechance", REAL, 1.0, (M, "ConflictMoveChance")), (M, "camp_movechance", REAL, 0.001, (M, "CampMoveChance")), (M, "idpcamp_movechance", REAL, 0.1, (M, "IDPCampMoveChance")), (M, "default_movechance", REAL, 0.3, (M, "DefaultMoveChance")),
    (M, "awareness_level", INT, 1, (M, "AwarenessLevel")), (M, "capacity_buffer", REAL, 0.9, (M, "CapacityBuffer")), (M, "capacity_scaling", REAL, 1.0, (M, "CapacityScaling")),
    (M, "avoid_short_stints", BOOL, False, (M, "AvoidShortStints")), (M, "start_on_foot", BOOL, False, (M, "StartOnFoot")), (M, "softening", REAL, 10.0, (M, "DistanceSoftening")), (M, "weight_softening", REAL, 0.0, (M, "WeightSoftening")),
    (M, "weight_power", REAL, 1.0, (M, "WeightPower")), (M, "distance_power", REAL, 1.0, (M, "DistancePower")), (M, "stay_close_to_home", BOOL, False, (M, "StayCloseToHome")), (M, "home_distance_power", REAL, 0.5, (M, "HomeDistancePower")),
    (M, "use_pop_for_loc_weight", BOOL, False, (M, "UsePopForLocWeight")), (M, "pop_power_for_loc_weight", REAL, 0.1, (M, "PopPowerForLocWeight")), (M, "movechance_pop_base", REAL, 10000.0, (M, "MovechancePopBase")),
    (M, "movechance_pop_scale_factor", REAL, 0.0, (M, "MovechancePopScaleFactor")), (M, "pruning_threshold", REAL, 1.0, (M, "PruningThreshold")), (M, "fixed_routes", BOOL, False, (M, "FixedRoutes")),
    (M, "ChildrenAvoidHazards", BOOL, False, (M, "ChildrenAvoidHazards")), (M, "BoysTakeRisk", BOOL, False, (M, "BoysTakeRisk")), (M, "MatchCampEthnicity", BOOL, False, (M, "MatchCampEthnicity")),
    (M, "MatchTownEthnicity", BOOL, False, (M, "MatchTownEthnicity")), (M, "MatchConflictEthnicity", BOOL, False, (M, "MatchConflictEthnicity")),
    (O, "hasten", INT, 1, (O, "PopulationScaleDownFactor")),
]
FLOOD = [("max_flood_level", INT, -1, (S, "MaxFloodLevel")), ("flood_movechances", "reals", None, (M, "FloodMovechances")), ("flood_loc_weights", "reals", None, (M, "FloodLocWeights")),
         ("flood_forecaster", BOOL, False, (M, "FloodForecaster")), ("flood_forecaster_timescale", INT, 0, (M, "FloodForecasterTimescale")), ("flood_forecaster_end_time", INT, 0, (M, "FloodForecasterEndTime")),
         ("flood_forecaster_weights", "reals", None, (M, "FloodForecasterWeights")), ("flood_awareness_weights", "reals", None, (M, "FloodAwarenessWeights"))]
N = len(PLAIN)


def cases(tier):
    T = tier == "thorough"
    cs = []
    for i in range(N):
        for rest in ("absent", "empty", "others"):
            cs.append(dict(t="single", i=i, rest=rest))
        cs.append(dict(t="pair", i=i))
        cs.append(dict(t="again", i=i))
    for i in range(len(FLOOD)):
        cs.append(dict(t="flood", i=i, spawn=False))
        cs.append(dict(t="flood", i=i, spawn=True))
    for kind in ("conflict", "flood"):
        cs.append(dict(t="driven", kind=kind))
    for x in ("none", "empty", "sections"):
        cs.append(dict(t="nothing", x=x))
    cs += [dict(t="contradiction"), dict(t="steps"), dict(t="v1")]
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def value(ctx, name, kind):
    if kind == REAL:
        return ctx.real(name, 0, INF)
    if kind == INT:
        return ctx.int(name, 0, INF)
    if kind == BOOL:
        return ctx.flag(name)
    if kind == "reals":
        return [ctx.real(f"{name}.{j}", 0, INF) for j in range(ctx.choice(name + ".n", [1, 3]))]
    return ctx.choice(name, kind)




def look(w, where):
    d = {S: w.settings.spawn_rules, M: w.settings.move_rules, L: w.settings.log_levels, O: w.settings.optimisations}[where[0]]
    return d.get(where[1], "nothing")


def compare(ctx, got, want, kind, msg):
    if kind == REAL:
        ctx.check(not isinstance(got, (str, bool)) and got is not None, "type", f"{msg}: {got!r} is no number")
        ctx.check_eq(got, want, "value", msg)
    elif kind == INT:
        ctx.check(not isinstance(got, (str, bool, float)) and got is not None, "type", f"{msg}: {got!r} is no whole number")
        ctx.check_eq(got, want, "value", msg)
    elif kind == BOOL:
        ctx.check(got is want, "value", f"{msg}: {got!r}, expected {want!r}")
    elif kind == "reals" and want is not None:
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want), "value", f"{msg}: {got!r}")
        for g, x in zip(got, want):
            ctx.check_eq(num(ctx, g), x, "value", msg)
    else:
        ctx.check(got == want, "value", f"{msg}: {got!r}, expected {want!r}")


def num(ctx, g):
    """an element of a list as the simulation reads it: float(x)"""
    if not isinstance(g, str):
        return g
    v = shims._tok(core.ENGINE, g) if ctx.symbolic else None
    return float(g) if v is None else v


def expect(ctx, w, given, msg, skip=()):
    """given: {(section, name): value}"""
    for sec, name, kind, default, where in PLAIN:
        if name in skip:
            continue
        want = given.get((sec, name), default)
        compare(ctx, look(w, where), want, kind, f"{msg}: {sec}/{name}" + ("" if (sec, name) in given else " (not given)"))
    for where in ((M, "FloodRulesEnabled"), (M, "FloodForecaster"), (S, "flood_driven_spawning"), (S, "conflict_driven_spawning")):
        if where[1] in skip:
            continue
        ctx.check(look(w, where) is False, "value", f"{msg}: {where[1]} is {look(w, where)!r} although not asked for")


def cfg_of(given):
    cfg = {}
    for (sec, name), v in given.items():
        cfg.setdefault(sec, {})[name] = v
    return cfg


def read(w, cfg, extra=""):
    write("simsetting_sx.yml", yml(cfg) + "\n" + extra)
    return w.settings.ReadFromYML("simsetting_sx.yml")


def single(ctx, case):
    w = ctx.world()
    sec, name, kind, default, where = PLAIN[case["i"]]
    given = {(sec, name): value(ctx, name, kind)}
    extra = ""
    if case["rest"] == "empty":
        extra = "".join(f"{s}:\n" for s in (L, S, M, O) if s != sec)
    elif case["rest"] == "others":
        for k, x in (("max_move_speed", 200.0), ("default_movechance", 0.25), ("avoid_short_stints", True), ("capacity_scaling", 2.0)):
            given.setdefault((M, k), x)
        given.setdefault((S, "insert_day0"), False)
        given.setdefault((S, "camps_are_sinks"), True)
        given.setdefault((L, "camp"), 1)
        given.setdefault((O, "hasten"), 10)
    read(w, cfg_of(given), extra)
    expect(ctx, w, given, f"{name} given")


def pair(ctx, case):
    w = ctx.world()
    i = case["i"]
    j = ctx.choice("other", [k for k in range(N) if k > i] or [0])
    given = {PLAIN[k][:2]: value(ctx, PLAIN[k][1], PLAIN[k][2]) for k in (i, j)}
    read(w, cfg_of(given))
    expect(ctx, w, given, f"{PLAIN[i][1]} and {PLAIN[j][1]} given")


def again(ctx, case):
    """nothing of a file that was read before remains"""
    w = ctx.world()
    i = case["i"]
    first = {PLAIN[i][:2]: value(ctx, PLAIN[i][1], PLAIN[i][2])}
    read(w, cfg_of(first))
    j = ctx.choice("then", [(i * 7 + 3) % N, i])
    second = {PLAIN[j][:2]: value(ctx, "then_" + PLAIN[j][1], PLAIN[j][2])} if ctx.flag("second file sets something") else {}
    read(w, cfg_of(second))
    expect(ctx, w, second, f"file read after one with {PLAIN[i][1]}")


def flood(ctx, case):
    w = ctx.world()
    name, kind, default, where = FLOOD[case["i"]]
    rules = {name: value(ctx, name, kind)}
    rest = ctx.choice("rest", ["absent", "others"])
    if rest == "others":
        for n, k, d, _ in FLOOD:
            if n not in rules:
                rules[n] = {INT: 3, BOOL: True, "reals": [1.0, 0.5]}[k]
    cfg = {M: {"flood_rules": rules}}
    given = {}
    if case["spawn"]:
        cfg[S] = dict(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True, flood_driven_spawning=dict(spawn_mode="constant"))
        given = {(S, "conflict_zone_spawning_only"): False, (S, "take_from_population"): True}
    read(w, cfg)
    expect(ctx, w, given, "flood rules given", skip=("FloodRulesEnabled", "FloodForecaster", "flood_driven_spawning"))
    ctx.check(look(w, (M, "FloodRulesEnabled")) is True, "value", "flood rules given but not enabled")
    ctx.check(look(w, (S, "flood_driven_spawning")) is case["spawn"], "value", "flood-driven spawning")
    for n, k, d, where in FLOOD:
        if n in rules or d is not None:
            compare(ctx, look(w, where), rules.get(n, d), k, f"flood setting {n}")
    read(w, {})
    expect(ctx, w, {}, "file read after one with flood rules")


def driven(ctx, case):
    w = ctx.world()
    kind = case["kind"]
    mode = ctx.choice("mode", ["constant", "poisson", "pop_ratio", None])
    sub = {}
    if mode is not None:
        sub["spawn_mode"] = mode
    eff = mode or ("constant" if kind == "conflict" else "pop_ratio")
    give = ctx.flag("number given")
    if kind == "conflict":
        v = ctx.real("displaced", 0, 1) if eff == "pop_ratio" else ctx.int("displaced", 0, INF)
        if give:
            sub["displaced_per_conflict_day"] = v
        if not sub:
            sub["unknown"] = 1
        read(w, {S: {"conflict_driven_spawning": sub}})
        expect(ctx, w, {}, "conflict-driven spawning", skip=("conflict_driven_spawning",))
        ctx.check(look(w, (S, "conflict_driven_spawning")) is True, "value", "conflict-driven spawning not enabled")
        ctx.check(look(w, (S, "conflict_spawn_mode")) == eff, "value", f"spawn mode {look(w, (S, 'conflict_spawn_mode'))}, expected {eff}")
        compare(ctx, look(w, (S, "displaced_per_conflict_day")), v if give else (0.01 if eff == "pop_ratio" else 500), REAL if eff == "pop_ratio" else INT, "displaced_per_conflict_day")
    else:
        v = [0.0, ctx.real("displaced1", 0, 1), ctx.real("displaced2", 0, 1)]
        if give:
            sub["displaced_per_flood_day"] = v
        if not sub:
            sub["unknown"] = 1
        read(w, {S: dict(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True, flood_driven_spawning=sub)})
        expect(ctx, w, {(S, "conflict_zone_spawning_only"): False, (S, "take_from_population"): True}, "flood-driven spawning", skip=("FloodRulesEnabled", "flood_driven_spawning"))
        ctx.check(look(w, (S, "flood_driven_spawning")) is True, "value", "flood-driven spawning not enabled")
        ctx.check(look(w, (S, "flood_spawn_mode")) == eff, "value", f"spawn mode {look(w, (S, 'flood_spawn_mode'))}, expected {eff}")
        compare(ctx, look(w, (S, "displaced_per_flood_day")), v if give else ([0.0, 0.1, 0.2, 0.5, 0.9] if eff == "pop_ratio" else [0, 100, 200, 300, 500]), "reals", "displaced_per_flood_day")
    read(w, {})
    expect(ctx, w, {}, "file read after one with driven spawning")


def nothing(ctx, case):
    w = ctx.world()
    if ctx.flag("before"):
        read(w, {M: dict(max_move_speed=ctx.real("speed", 1, 500), fixed_routes=True), S: dict(insert_day0=False)})
    x = case["x"]
    write("simsetting_sx.yml", "" if x == "none" else "{}\n" if x == "empty" else "log_levels:\nspawn_rules:\nmove_rules:\noptimisations:\n")
    w.settings.ReadFromYML("simsetting_sx.yml")
    expect(ctx, w, {}, "empty settings file")


def contradiction(ctx, case):
    """both kinds of spawning at once, and flood-driven spawning without taking people from the population, are refused"""
    w = ctx.world()
    s = {}
    for n in ("conflict_zone_spawning_only", "flood_zone_spawning_only", "take_from_population"):
        v = ctx.choice(n, [True, False, None])
        if v is not None:
            s[n] = v
    if ctx.flag("flood-driven"):
        s["flood_driven_spawning"] = dict(spawn_mode="constant")
    if ctx.flag("conflict-driven"):
        s["conflict_driven_spawning"] = dict(spawn_mode="constant")
    if not s:
        return
    both = s.get("conflict_zone_spawning_only", True) and s.get("flood_zone_spawning_only", False)
    floods = s.get("flood_zone_spawning_only", False) and "flood_driven_spawning" in s
    refuse = both or (floods and not s.get("take_from_population", False))
    try:
        read(w, {S: s})
        refused = False
    except SystemExit:
        refused = True
    ctx.check(refused == refuse, "refuse", f"settings {s} were {'refused' if refused else 'accepted'}")
    if not refused:
        fl = s.get("flood_zone_spawning_only", False)
        ctx.check(look(w, (S, "flood_zone_spawning_only")) is fl, "value", "flood_zone_spawning_only")
        ctx.check(look(w, (S, "flood_driven_spawning")) is bool(floods), "value", "flood-driven spawning")
        ctx.check(look(w, (S, "conflict_driven_spawning")) is ("conflict_driven_spawning" in s and not fl), "value", "conflict-driven spawning")
        ctx.check(look(w, (S, "TakeFromPopulation")) is s.get("take_from_population", False), "value", "take_from_population")


def steps(ctx, case):
    w = ctx.world()
    cfg = {}
    n = ctx.int("days", 1, INF)
    if ctx.flag("days given"):
        cfg["number_of_steps"] = n
    f = ctx.choice("conflict file", [None, "conflicts.csv"])
    g = ctx.choice("flood file", [None, "floods.csv"])
    if f:
        cfg["conflict_input_file"] = f
    if g:
        cfg["flood_level_input_file"] = g
    cfg[M] = dict(default_movechance=0.25)
    r = read(w, cfg)
    ctx.check_eq(r, cfg.get("number_of_steps", -1), "value", "number of days")
    ctx.check(w.settings.ConflictInputFile == (f or ""), "value", "conflict input file")
    ctx.check(w.settings.FloodLevelInputFile == (g or ""), "value", "flood input file")
    expect(ctx, w, {(M, "default_movechance"): 0.25}, "file names given")


def v1(ctx, case):
    """the first version's rules do not outlive the file that asks for them"""
    w = ctx.world()
    read(w, {M: dict(use_v1_rules=True, max_walk_speed=30.0)})
    given = {(M, "max_move_speed"): ctx.real("speed", 1, 500)} if ctx.flag("speed given") else {}
    read(w, cfg_of(given))
    expect(ctx, w, given, "file read after one with the first version's rules")
