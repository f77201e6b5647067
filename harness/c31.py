"""C31: the simulation programs print, for every day, what the simulation did that day."""
import os
import sys

from symx import core, loader, shims
from symx.mpi import Cluster

from .lib import *

BOUNDS = ("runscripts/run.py and, on 1-3 processes, runscripts/run_par.py executed whole on a network of a source, a camp and an IDP camp; 3-5 days; every start and end day of a route closure, every conflict intensity or flood level per day, every registration count of the camps, several totals, "
          "initial populations, registration corrections, preloaded people, scale-down, both ways of giving the settings file and the duration; which people choose which camp")
OUTSIDE = "interpolation and debt in general (C14-C16), network reading in general (C17), people retired in camps; run_UNHCR_uncertainty.py and the multiscale programs; how the lines of several processes interleave on the terminal"

DATES = ["2012-02-27", "2012-02-28", "2012-02-29", "2012-03-01", "2012-03-02", "2012-03-03"]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for size in (0, 1, 2):                     # 0: run.py, otherwise run_par.py on that many processes
        for mode in ("conflict", "flood", "data"):
            cs.append(dict(size=size, mode=mode, days=3 if size == 0 or mode == "data" else 2, closed="campB", extra="none"))
        cs.append(dict(size=size, mode="data", days=3, closed="both", extra="none"))
        cs.append(dict(size=size, mode="data", days=2, closed="none", extra="counts"))
        for extra in ("yml", "length", "initial", "insert", "empty", "correct", "agents", "scale", "noidp"):
            cs.append(dict(size=size, mode="data" if extra in ("insert", "empty", "correct", "scale") else "conflict", days=3 if extra != "length" else 2, closed="none", extra=extra))
    if T:
        for size in (0, 1, 2, 3):
            for mode in ("conflict", "flood", "data"):
                for closed in ("campB", "campD", "both"):
                    cs.append(dict(size=size, mode=mode, days=4, closed=closed, extra="none"))
    return cs


def inputs(ctx, case):
    """writes all input files; returns what they say"""
    mode, extra, days = case["mode"], case["extra"], case["days"]
    m = dict(mode=mode)
    write("in/sim_period.csv", f"StartDate,{DATES[0]}\nLength,{days if extra == 'length' else 99}\n")
    init = ",initial_idps" if extra == "initial" else ""
    cell = lambda n: f",{n}" if init else ""
    write("in/locations.csv", f"#name,region,country,gps_x,gps_y,location_type,conflict_date,pop/cap{init}\n"
          f"alpha,r,here,0,0,{'conflict_zone' if mode == 'data' else 'town'},0,1000{cell(0)}\ncampB,r,there,0,0,camp,0,5000{cell(2)}\ncampD,r,here,0,0,idpcamp,0,5000{cell(1)}\n")
    write("in/routes.csv", "#name1,name2,distance,forced_redirection\nalpha,campB,100,0\nalpha,campD,150,0\n")
    s, t = 99, 99
    if case["closed"] != "none":
        s, t = ctx.int("closeDay", 0, days), ctx.int("openDay", 0, days)
    m["closed"] = lambda d: band(s <= d, bor(d < t, t < s)) if not isinstance(s, int) else s <= d and (d < t or t < s)
    rows = "".join(f"link,alpha,{c},{s},{t}\n" for c in ("campB", "campD") if case["closed"] in (c, "both"))
    write("in/closures.csv", "#type,name1,name2,start,end\n" + rows)
    if mode == "conflict":
        m["conflict"] = [ctx.real(f"conflict{d}", 0, 1) for d in range(days)] if extra == "none" else [0.5, 1.0, 0.0]
        for c in m["conflict"] if extra == "none" else []:
            ctx.assume(bor(c == 0, c > 0.001))
        write("in/conflicts.csv", "#Day,alpha\n" + "".join(f"{d},{c}\n" for d, c in enumerate(m["conflict"])))
    else:
        write("in/conflicts.csv", "#Day,alpha\n" + "".join(f"{d},1\n" for d in range(days)))
    if mode == "flood":
        m["level"] = [ctx.int(f"level{d}", 0, 2) for d in range(days)]
        write("in/flood_level.csv", "#Day,alpha\n" + "".join(f"{d},{c}\n" for d, c in enumerate(m["level"])))
    if extra == "agents":
        write("in/agents.csv", "location\nalpha\ncampB\ncampB\n")
    if extra == "counts":
        m["campB"] = [(0, ctx.int("countB0", 0, 1000)), (2, ctx.int("countB2", 0, 1000))]
        m["campD"] = [(0, ctx.int("countD0", 0, 1000)), (4, ctx.int("countD4", 0, 1000))]
    elif extra in ("insert", "empty"):
        m["campB"] = [(0, ctx.choice("countB0", [0, 2])), (2, 4)]
        m["campD"] = [(0, 1), (4, 1)]
    else:
        some = extra in ("correct", "scale")
        m["campB"] = [(0, ctx.choice("countB0", [1, 9]) if some else 0), (2, ctx.choice("countB2", [3, 900]) if some else 3)]
        m["campD"] = [(0, 7), (4, 1)]
    k = 2 if extra == "scale" else 1
    tot = (0, 2) if extra == "counts" else (0, 0) if mode != "data" else ctx.choice("totals", [(0, 2), (2, 1), (1, 4)])
    m["total"] = [(0, k * tot[0]), (2, k * tot[1])]
    for n in ("campB", "campD", "total"):
        write(f"data/{n}.csv", "".join(f"{DATES[0][:8]}{27 + d}" .replace("2012-02-31", "2012-03-02") + f",{v}\n" for d, v in m[n]))
    write("data/data_layout.csv", "total,total.csv\ncampB,campB.csv\ncampD,campD.csv\n")
    if extra == "correct":
        m["campB"] = [(0, m["campB"][1][1]), m["campB"][1]]
        write("in/registration_corrections.csv", f"campB,{DATES[2]}\n")
    sp = dict(sum_from_camps=False, insert_day0=extra == "insert", empty_camps_on_day0=extra == "empty")
    if mode == "conflict":
        sp["conflict_driven_spawning"] = dict(spawn_mode="constant", displaced_per_conflict_day=2)
    if mode == "flood":
        sp.update(conflict_zone_spawning_only=False, flood_zone_spawning_only=True, take_from_population=True)
        sp["flood_driven_spawning"] = dict(spawn_mode="constant", displaced_per_flood_day=[0, 1, 2])
    if extra == "agents":
        sp["read_from_agents_csv_file"] = True
    mv = dict(max_move_speed=200, max_walk_speed=200, awareness_level=1, camp_movechance=0.0, idpcamp_movechance=0.0, default_movechance=1.0, conflict_movechance=1.0, avoid_short_stints=False, capacity_buffer=1.0)
    if mode == "flood":
        mv["flood_rules"] = dict(flood_movechances=[1.0, 1.0, 1.0], flood_loc_weights=[1.0, 1.0, 1.0])
    cfg = {"log_levels": dict(idp_totals=0 if extra == "noidp" else 1), "spawn_rules": sp, "move_rules": mv, "optimisations": dict(hasten=k)}
    if mode == "conflict":
        cfg["conflict_input_file"] = "overwritten.csv"
    if mode == "flood":
        cfg["flood_level_input_file"] = "overwritten.csv"
    write("simsetting.yml" if extra == "yml" else "in/set.yml", yml(cfg) + "\n")
    m["argv"] = ["run.py", "in", "data", "0" if extra == "length" else str(days)] + ([] if extra == "yml" else ["in/set.yml"])
    return m


def program(ctx, w, name, argv, rows, ecos, marks=None):
    """runs the program; rows receives (text, number of people and where they are at that moment)"""
    mod = w.pflee if name == "run_par.py" else w.flee
    init = mod.Ecosystem.__init__

    def create(self, *a, **k):
        init(self, *a, **k)
        ecos.append(self)

    mod.Ecosystem.__init__ = create

    def show(*a, sep=" ", end="\n", file=None, flush=False):
        if file is None or file is sys.stdout:
            rows.append((sep.join(str(x) for x in a), [ag.location.name if ag.location is not None else None for e in ecos for ag in e.agents], len(spawned)))
        else:
            shims.quiet_print(*a, sep=sep, end=end, file=file)

    spawned = []
    do = w.spawning.spawn_daily_displaced

    def spawn(e, t, d, *a, **k):
        r = do(e, t, d, *a, **k)
        spawned.append(r)
        return r

    w.spawning.spawn_daily_displaced = spawn
    if marks is not None:                    # rel_error itself for all values: C25; here only what it is given
        def rel(x, y, *a):
            marks.append(1)
            return 8 * x + y

        w.load("flee.postprocessing.analysis").rel_error = rel
    path = os.path.join(loader.REPO, "runscripts", name)
    b = dict(w.builtins)
    b["print"] = show
    ns = {"__name__": "__main__", "__builtins__": b, "__file__": path, "__sx_is__": shims.sx_is, "__sx_isnot__": shims.sx_isnot}
    old = sys.argv
    sys.argv = list(argv)
    try:
        exec(loader._compile(path, w.symbolic), ns)
    finally:
        sys.argv = old
    return spawned


def num(ctx, s):
    v = shims._tok(core.ENGINE, s) if ctx.symbolic else None
    if v is not None:
        return v
    try:
        return int(s)
    except ValueError:
        return float(s)


def close(x, y, tol=1e-6):
    d = x - y
    if is_sym(d):
        return band(d <= tol, d >= -tol)
    return abs(d) <= tol


def value(reg, d):
    (d0, v0), (d1, v1) = reg
    if d >= d1:
        return v1
    return v0 + (v1 - v0) * d / (d1 - d0)


def harness(ctx, case):
    m = inputs(ctx, case)
    size, mode, extra, days = case["size"], case["mode"], case["extra"], case["days"]
    rows, ecos = [], []
    marks = [] if extra == "counts" else None
    if size:
        cl = Cluster(ctx, size)
        spawned = cl.each(lambda r, w: program(ctx, w, "run_par.py", m["argv"], rows, ecos, marks))[0]
    else:
        spawned = program(ctx, ctx.world(), "run.py", m["argv"], rows, ecos, marks)
    idp = extra != "noidp"
    ctx.check(len(rows) == days + 1, "rows", f"{len(rows)} lines for {days} days")
    if len(rows) != days + 1:
        return
    rows[1:] = sorted(rows[1:], key=lambda r: r[0].split(",")[0])
    head = "Day,Date,campB sim,campB data,campB error,campD sim,campD data,campD error,Total error,refugees in camps (UNHCR),total refugees (simulation),raw UNHCR refugee count,refugees in camps (simulation),refugee_debt"
    ctx.check(rows[0][0].strip() == head + (",total IDPs" if idp else ""), "header", f"header {rows[0][0]!r}")
    k = 2 if extra == "scale" else 1
    at = 0                      # people in the place they start from
    gone = dict(campB=0, campD=0)
    people = 0
    arrived = []                # in camps, per day
    if extra == "agents":
        at, people = at + 1, people + 3
        gone["campB"] += 2
    if extra == "initial":
        gone["campB"] += 2
        gone["campD"] += 1
        people += 3
    if extra == "insert":
        for c in gone:
            gone[c] += m[c][0][1]
            people += m[c][0][1]
    base = {c: (m[c][0][1] if extra == "empty" else 0) for c in gone}
    total0 = m["total"][0][1] if extra == "empty" else 0
    for t in range(days):
        cols = rows[t + 1][0].strip().split(",")
        ctx.check(len(cols) == len(head.split(",")) + idp, "columns", f"{len(cols)} columns on day {t}")
        if len(cols) != len(head.split(",")) + idp:
            return
        ctx.check(cols[0] == str(t) and cols[1] == DATES[t], "date", f"line of day {t} is labelled {cols[0]}, {cols[1]}")
        v = [num(ctx, c) for c in cols[2:]]
        new = spawned[t][0]
        if mode == "conflict":
            cur = m["conflict"][t] if t == 0 or m["conflict"][t - 1] == 0 else cur     # the intensity a conflict starts with is kept
            ctx.check(new == (int_of(2 * cur) if m["conflict"][t] > 0 else 0), "spawn", f"{new} people entered on day {t}")
        elif mode == "flood":
            ctx.check_eq(new, m["level"][t], "spawn", f"people entered on day {t}")
        else:
            whole = lambda d: fl((value(m["total"], d) - total0) / k)
            if extra == "insert":           # nobody else enters on the first day; the registered people of that day are owed
                ctx.check(t > 0 or new == 0, "spawn", f"{new} people entered on day {t}")
            elif t == 0:
                ctx.check(new == whole(0) or extra == "correct", "spawn", f"{new} people entered on day {t}, registered {whole(0)}")
        people = people + new
        at = at + new
        # who can leave leaves at once
        shut = m["closed"](t)
        openB = not (case["closed"] in ("campB", "both") and shut)
        openD = not (case["closed"] in ("campD", "both") and shut)
        simB, simD = v[0], v[3]
        if at and (openB or openD):
            if not openD:
                gone["campB"] = gone["campB"] + at
            elif not openB:
                gone["campD"] = gone["campD"] + at
            else:
                ctx.check(simB + simD == gone["campB"] + gone["campD"] + at, "camps", f"day {t}: {simB} and {simD} people in the camps, expected {gone['campB'] + gone['campD'] + at} in all")
                ctx.check(band(simB >= gone["campB"], simD >= gone["campD"]), "camps", f"day {t}: fewer people in a camp than before")
                gone["campB"], gone["campD"] = simB, simD
            at = 0
        ctx.check(band(simB == gone["campB"], simD == gone["campD"]), "camps", f"day {t}: {simB} and {simD} people in the camps, expected {gone['campB']} and {gone['campD']}")
        here = rows[t + 1][1]
        for i, c in ((0, "campB"), (3, "campD")):
            if not size or size == 1:
                n = len([a for a in here if a == c])
                ctx.check(v[i] == n, "counted", f"day {t}: {v[i]} people in {c}, {n} are there")
            d = int_of(value(m[c], t) / k) - base[c]
            ctx.check(close(v[i + 1], d), "data", f"day {t}: registered in {c}: {v[i + 1]}, expected {d}")
            # |sim/data - 1| rounded to 4 digits; 0 without data
            if marks:
                ctx.check_eq(v[i + 2], 8 * v[i] + v[i + 1], "error", f"day {t}: the relative error of {c} compares other numbers")
            elif extra != "counts":
                e = abs(v[i] / d - 1) if d >= 0.00001 else 0
                ctx.check(close(v[i + 2], e, 0.0001), "error", f"day {t}: relative error of {c}: {v[i + 2]}, expected {e}")
        terr, undata, tot, raw, inc, debt = v[6:12]
        ctx.check(tot == people, "people", f"day {t}: {tot} people, expected {people}")
        ctx.check(inc == simB + simD, "in camps", f"day {t}: {inc} people in camps, columns say {simB + simD}")
        if idp:
            ctx.check(v[12] == simD, "idps", f"day {t}: {v[12]} IDPs, {simD} people in the IDP camp")
        r = spawned[t][1]
        if mode == "data":
            ctx.check_eq(r, spawned[t][1], "raw", "raw")
            if extra != "correct":
                ctx.check(close(r, (value(m["total"], t) - total0) / k, 1.0), "raw", f"day {t}: raw count {r}, registered {(value(m['total'], t) - total0) / k}")
        if r > 0:
            ctx.check_eq(raw, r, "raw", f"day {t}: raw count")
            ctx.check_eq(debt, spawned[t][2], "debt", f"day {t}: debt")
            dif = 0
            for i in (0, 3):
                x = v[i] - v[i + 1]
                dif = dif + ite(x >= 0, x, -x)
            ctx.check(close(terr * r, dif, 0.001), "total error", f"day {t}: total error")
            s = v[1] + v[4]
            ctx.check(band(undata <= s + 1e-6, undata > s - 1 - 1e-6), "unhcr", f"day {t}: registered in camps {undata}, columns say {s}")
        else:
            ctx.check(band(terr == 0, raw == 0), "raw", f"day {t}: total error and raw count without registrations")
    ctx.observe("rows", len(rows))


def int_of(x):
    return x.trunc() if is_sym(x) else int(x)


def fl(x):
    return int(x)
