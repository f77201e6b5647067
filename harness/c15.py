"""C15: refugee data tables are interpolated and differenced faithfully."""
from datetime import date, timedelta

from fractions import Fraction as F

from .lib import *

BOUNDS = ("tables of 1-4 registrations at fixed day patterns (before, on and after the start date, adjacent days, gaps up to 400 days, across leap days), every count 0..10^6, every day from 3 before to 3 after the registrations; "
          "every day -1000..5000 for fixed counts; scale factors 1, 2, 3, 10; up to 3 camps; daily differences over up to 8 days for every count series, camp sum and total column, both interpolation modes, empty start on and off; "
          "up to 3 files per camp with every count")
OUTSIDE = ("unsorted or duplicate registration dates; rounding of the double-precision interpolation formula (solved over exact reals); override_input; more registrations per file (the code per pair of registrations is the same); "
           "the day-0 value of the camp sum (recorded finding)")

START = date(2012, 2, 20)


def day(n):
    return (START + timedelta(days=n)).isoformat()


def series(ctx, nm, pat, mx):
    return [(d, ctx.int(f"{nm}@{d}", 0, mx)) for d in pat]


def put(nm, rows, style):
    t = ""
    if style == 1:
        t += "DateTime,count\n"
    elif style == 2:
        t += "Date,count,source\n#2011-01-01,77\n"
    elif style == 3:
        t += "#2013-01-01,55\n"
    for i, (d, v) in enumerate(rows):
        t += f"{day(d)},{v}" + (",someone" if style == 2 else "") + "\n"
        if style == 2:
            t += f"{day(d + 1)},,nobody\n"
        if style == 3:
            t += "#\n# 2012-01-01,1234\n" if i % 2 else "2012-01-01\n"
    write("data/" + nm, t)


def load(w, files, empty=False, scale=1, layout_comment=False, start=None):
    """files: {name: [file, ...]} in order"""
    write("data/layout.csv", ("#nothing,missing.csv\n" if layout_comment else "") + "".join(",".join([n] + fs) + "\n" for n, fs in files.items()))
    m = w.load("flee.datamanager.handle_refugee_data")
    return m.RefugeeTable(csvformat="generic", data_directory="data", start_date=start or START.isoformat(), data_layout="layout.csv", start_empty=empty, population_scaledown_factor=scale)


def line(rows, d, scale):
    """value of the straight line through the registrations at day d"""
    if d <= rows[0][0]:
        return rows[0][1] / scale if scale != 1 else rows[0][1]
    for (d0, v0), (d1, v1) in zip(rows, rows[1:]):
        if d0 <= d < d1:
            return (v0 + F(d - d0, d1 - d0) * (v1 - v0)) * F(1, scale)
    return rows[-1][1] * F(1, scale)


def latest(rows, d, scale):
    v = rows[0][1]
    for dd, vv in rows:
        if dd <= d:
            v = vv
    return v * F(1, scale)


EPS = F(1, 2 ** 20)


def close(ctx, got, want, label, msg):
    ctx.check(band(got <= want + EPS, want < got + 1 + EPS), label, msg)


PATTERNS = [[0], [4], [-3], [0, 1], [0, 5], [2, 10], [-4, 3], [0, 1, 2], [0, 3, 4, 11], [-9, -2, 5], [3, 4, 9], [0, 7, 14, 16]]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for i, p in enumerate(PATTERNS):
        for full in (True, False):
            for scale in ([1, 3] if not T else [1, 2, 3, 10]):
                cs.append(dict(t="interp", pat=p, full=full, scale=scale, style=(i + scale) % 4))
    if T:
        cs += [dict(t="interp", pat=[0, 30, 31, 59], full=f, scale=1, style=0) for f in (True, False)]
    for p in ([0, 37, 400], [-50, 10, 11], [5], [100, 465, 466, 500]):
        for full in (True, False):
            cs.append(dict(t="anyday", pat=p, full=full))
    for full in (True, False):
        for sumc in (True, False):
            for empty in (True, False):
                for order in ("up", "twice", "from1") + (("down",) if T else ()):
                    cs.append(dict(t="diff", full=full, sumc=sumc, empty=empty, order=order, days=5 if not T else 8, camps=2))
        cs.append(dict(t="diff", full=full, sumc=True, empty=False, order="up", days=5, camps=3))
        cs.append(dict(t="diff", full=full, sumc=True, empty=False, order="up", days=4, camps=1))
    for pats in ([[0], [0]], [[0, 2], [1, 3]], [[0, 3], [3, 5]], [[2, 4], [-1, 4, 6]], [[0, 1], [3, 4]], [[3, 4], [0, 1]], [[0, 2], [1], [2, 3]], [[5], [1, 5], [0, 9]]):
        for full in (True, False):
            cs.append(dict(t="add", pats=pats, full=full, scale=1))
    cs.append(dict(t="add", pats=[[0, 2], [1, 3]], full=True, scale=2))
    cs.append(dict(t="dates"))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def interp(ctx, case):
    w = ctx.world()
    pat, scale = case["pat"], case["scale"]
    rows = {"total": series(ctx, "total", [pat[0], pat[-1] + 2], 10 ** 6), "campA": series(ctx, "campA", pat, 10 ** 6), "campB": series(ctx, "campB", [d + 1 for d in pat], 10 ** 6)}
    for i, n in enumerate(rows):
        put(n + ".csv", rows[n], (case["style"] + i) % 4)
    d = load(w, {n: [n + ".csv"] for n in rows}, scale=scale, layout_comment=case["style"] % 2 == 1)
    t = ctx.choice("day", list(range(pat[0] - 3, pat[-1] + 4)))
    for n in rows:
        nm = "".join(list(n))
        got = d.get_field(name=nm, day=t, FullInterpolation=case["full"])
        want = (line if case["full"] else latest)(rows[n], t, scale)
        close(ctx, got, want, "value", f"{n} on day {t}")
        reg = dict(rows[n])
        if t in reg and scale == 1:
            ctx.check_eq(got, reg[t], "registered", f"{n} on the day {t} of a registration")
        if t <= rows[n][0][0] and scale == 1:
            ctx.check_eq(got, rows[n][0][1], "before-first", f"{n} on day {t}")
        if t >= rows[n][-1][0] and scale == 1:
            ctx.check_eq(got, rows[n][-1][1], "after-last", f"{n} on day {t}")
        ctx.check(bool(d.is_interpolated(nm, t)) == (t not in reg), "is-interpolated", f"{n} day {t}")


def anyday(ctx, case):
    w = ctx.world()
    pat = case["pat"]
    rows = [(x, [1000, 4321, 17, 90017][i]) for i, x in enumerate(pat)]
    put("total.csv", [(0, 1)], 0)
    put("campA.csv", rows, 1)
    d = load(w, {"total": ["total.csv"], "campA": ["campA.csv"]})
    t = ctx.int("day", -1000, 5000)
    got = d.get_field("campA", t, case["full"])
    # the harness decides where the day lies
    want = None
    if t <= rows[0][0]:
        want = rows[0][1]
    elif t >= rows[-1][0]:
        want = rows[-1][1]
    else:
        for (d0, v0), (d1, v1) in zip(rows, rows[1:]):
            if want is None and t < d1:
                want = v0 + F(v1 - v0, d1 - d0) * (t - d0) if case["full"] else v0
    close(ctx, got, want, "value", "campA")


def diff(ctx, case):
    w = ctx.world()
    camps = ["campA", "campB", "campC"][:case["camps"]]
    D = case["days"]
    pats = {"total": [0, 2, D], "campA": [0, 1, 4], "campB": [-1, 3], "campC": [2, 3]}
    rows = {n: series(ctx, n, pats[n], 1000) for n in ["total"] + camps}
    for n in rows:
        put(n + ".csv", rows[n], 0)
    files = {n: [n + ".csv"] for n in rows}
    d = load(w, files, empty=case["empty"])
    ref = load(w, files)
    full, sumc = case["full"], case["sumc"]

    def total(t):
        src = camps if sumc else ["total"]
        s = 0
        for n in src:
            s = s + ref.get_field(n, t, full)
        return s

    def step(t):
        got = d.get_daily_difference(t, FullInterpolation=full, SumFromCamps=sumc)
        if t == 0:
            want = 0 if case["empty"] else total(0)
            if sumc and not case["empty"]:
                extra = ref.get_field("total", 0, full)
                ctx.check(bor(got == want, got == want + extra), "day0", "day-0 value")
                ctx.check(got == want, "day0", "day-0 value counts the total column as a camp", key="day0-sum-includes-total")
            else:
                ctx.check_eq(got, want, "day0", "day-0 value")
        else:
            ctx.check_eq(got, total(t) - total(t - 1), "difference", f"increase of day {t}")
        return got
    order = {"up": range(D + 1), "twice": [x for t in range(D + 1) for x in (t, t)], "from1": range(1, D + 1), "down": range(D, 0, -1)}[case["order"]]
    s = 0
    seen = set()
    for t in order:
        g = step(t)
        if t > 0 and t not in seen:
            s = s + g
        seen.add(t)
    ctx.check_eq(s, total(D) - total(0), "telescope", "sum of the increases")
    if 0 in seen and case["empty"]:
        for n in rows:
            for t in (0, 2, D):
                got = d.get_field(n, t, full)
                ctx.check_eq(got, ref.get_field(n, t, full) - ref.get_field(n, 0, full), "empty-start", f"{n} on day {t} relative to its day-0 value")
    if not case["empty"]:
        for n in rows:
            ctx.check_eq(d.get_field(n, 2, full), ref.get_field(n, 2, full), "unchanged", f"{n} after asking for differences")


def add(ctx, case):
    w = ctx.world()
    pats = case["pats"]
    rows = [series(ctx, f"file{i}", p, 10 ** 5) for i, p in enumerate(pats)]
    for i, r in enumerate(rows):
        put(f"file{i}.csv", r, (i + 1) % 4)
    put("total.csv", [(0, 5)], 0)
    put("other.csv", [(0, 6), (4, 8)], 0)
    d = load(w, {"total": ["total.csv"], "campA": [f"file{i}.csv" for i in range(len(rows))], "campB": ["other.csv"]}, scale=case["scale"])
    days = sorted({x for p in pats for x in p})
    t = ctx.choice("day", days)
    want = 0
    for r in rows:
        v = 0
        for dd, vv in r:
            if dd <= t:
                v = vv
        want = want + v
    got = d.get_field("campA", t, case["full"])
    if case["scale"] == 1:
        ctx.check_eq(got, want, "sum", f"combined value on day {t}")
    else:
        close(ctx, got, want * F(1, case["scale"]), "sum", f"combined value on day {t}")
    if case["scale"] == 1:
        ctx.check(d.get_field("campB", 0) == 6 and d.get_field("campB", 2) == 7, "others", "another camp's data changed")


def dates(ctx, case):
    """days count from the start date, across months, years and leap days"""
    w = ctx.world()
    starts = ["2012-02-28", "2011-12-31", "2013-02-28", "2000-02-29", "2019-07-15", "1999-12-31"]
    start = ctx.choice("start", starts)
    off = ctx.choice("offset", [-366, -31, -1, 0, 1, 2, 28, 29, 30, 31, 59, 60, 365, 366, 730, 1461])
    v = ctx.int("value", 0, 1000)
    y, m, dd = map(int, start.split("-"))
    when = (date(y, m, dd) + timedelta(days=off)).isoformat()
    write("data/total.csv", f"{start},3\n")
    write("data/campA.csv", f"{when},{v}\n{(date(y, m, dd) + timedelta(days=off + 10)).isoformat()},{v + 100}\n")
    d = load(w, {"total": ["total.csv"], "campA": ["campA.csv"]}, start=start)
    ctx.check_eq(d.get_field("campA", off), v, "registered", f"value on day {off}")
    ctx.check_eq(d.get_field("campA", off + 5), v + 50, "value", f"value on day {off + 5}")
    ctx.check_eq(d.get_field("campA", off + 10), v + 100, "registered", f"value on day {off + 10}")
    dt = w.load("flee.datamanager.DataTable")
    ctx.check(dt.subtract_dates(when, start) == off, "dates", "days between two dates")
    ctx.check(str(dt.steps_to_date(off, start)) == when, "dates", "date after a number of days")
