"""C16: registration corrections rescale only earlier data; maxima are exact."""
from fractions import Fraction as F

from .c15 import day, load, put, series
from .lib import *

BOUNDS = ("tables of 1-5 registrations for 3 columns (some read from two files), every count 0..10^6 of the corrected column's other rows and of the other columns; the last over-registered and the first reliable count run over "
          "fixed pairs (ratios 1/8 to 4) in all cases and over every value 1..1000 for the row before; correction dates on every registration, between, before and after; one or two corrections directly or through a corrections file; "
          "maxima for every end day -5..40, before and after a correction, every count")
OUTSIDE = "rounding of the double-precision products; correction at a date whose previous registration is below 1 (the code stops the program); unsorted or duplicate dates"

PATTERNS = [[0], [0, 3], [-2, 0, 5], [0, 1, 2, 9], [2, 4, 8, 16, 32], [-8, -4, 3]]
PAIRS = [(1000, 500), (8, 1), (64, 64), (512, 2048), (4, 0)]


def cases(tier):
    T = tier == "thorough"
    cs = []
    for p in PATTERNS:
        for via in ("call", "file"):
            cs.append(dict(t="correct", pat=p, via=via))
    cs.append(dict(t="correct", pat=[0, 3, 6], via="call", two=True))
    cs.append(dict(t="correct", pat=[0, 3, 6], via="file", two=True))
    cs.append(dict(t="symbolic", pat=[0, 4], mx=1000))
    cs.append(dict(t="symbolic", pat=[0, 4, 6], mx=1000))
    if T:
        cs.append(dict(t="symbolic", pat=[0, 4, 6, 9], mx=1000))
        cs.append(dict(t="symbolic", pat=[0, 4, 6], mx=10 ** 6))
    for p in PATTERNS:
        for cor in (False, True):
            cs.append(dict(t="maximum", pat=p, cor=cor))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def floor_is(ctx, got, want, label, msg):
    e = F(1, 2 ** 20)
    ctx.check(band(got <= want + e, want < got + 1 + e), label, msg)


def correct(ctx, case):
    w = ctx.world()
    pat = case["pat"]
    dates = sorted(set(pat + [pat[0] - 1, pat[-1] + 1] + [x + 1 for x in pat]))
    rounds = []
    rows = {n: [list(r) for r in series(ctx, n, p, 10 ** 6)] for n, p in (("total", pat), ("campA", pat), ("campB", pat))}
    names = ["campA"] + (["campA"] if case.get("two") else ["campB"] if len(pat) > 2 else [])
    for k, n in enumerate(names):
        # a correction at a registration, in between, before or after; or at one that cannot matter
        at = ctx.choice(f"date{k}", dates)
        rounds.append((n, at))
    # the two registrations that give the factor
    for n in ("campA", "campB"):
        hits = [pat.index(at) for nn, at in rounds if nn == n and at in pat[1:]]
        if len(hits) == 1:
            a, b = ctx.choice("pair" + n, PAIRS)
            rows[n][hits[0] - 1][1], rows[n][hits[0]][1] = a, b
        elif hits:
            for i in range(min(hits) - 1, max(hits) + 1):
                rows[n][i][1] = [64, 256, 32, 128][i % 4]
    for n in rows:
        put(n + ".csv", [tuple(r) for r in rows[n]], 0)
    d = load(w, {n: [n + ".csv"] for n in rows})
    want = {n: [r[1] for r in rows[n]] for n in rows}
    factors = []
    for n, at in rounds:
        f = 1
        if at >= 0 and at in pat[1:]:
            i = pat.index(at)
            f = F(want[n][i]) / F(want[n][i - 1])
            for j in range(i):
                want[n][j] = want[n][j] * f
        factors.append(f)
    # (negative days: nothing happens)
    if case["via"] == "call":
        for (n, at), f in zip(rounds, factors):
            got = d.correctLevel1Registrations(name="".join(list(n)), date=day(at))
            ctx.check(got == f, "factor", f"factor of the correction of {n} at day {at}")
    else:
        write("corr.csv", "".join(f"{n},{day(at)}\n\n" for n, at in rounds))
        d.ReadL1Corrections("no_such_file.csv")
        d.ReadL1Corrections("corr.csv")
    for n in rows:
        for x, v in zip(pat, want[n]):
            for full in (True, False):
                got = d.get_field(n, x, full)
                if isinstance(v, F) and v.denominator == 1:
                    v = int(v)
                if isinstance(v, int):
                    ctx.check_eq(got, v, "value", f"{n} on day {x} after corrections {rounds}")
                else:
                    floor_is(ctx, got, v, "value", f"{n} on day {x} after corrections {rounds}")


def symbolic(ctx, case):
    """every pair of last over-registered and first reliable count"""
    w = ctx.world()
    pat = case["pat"]
    rows = series(ctx, "campA", pat, case["mx"])
    i = len(pat) - 1 if len(pat) < 4 else 2
    a, b = rows[i - 1][1], rows[i][1]
    ctx.assume(a >= 1)
    put("total.csv", [(0, 5)], 0)
    put("campA.csv", rows, 0)
    d = load(w, {"total": ["total.csv"], "campA": ["campA.csv"]})
    f = d.correctLevel1Registrations(name="campA", date=day(pat[i]))
    ctx.check(near(f * a, b), "factor", "factor times the last over-registered count is the first reliable one")
    for j in range(len(pat)):
        got = d.get_field("campA", pat[j])
        if j >= i:
            ctx.check_eq(got, rows[j][1], "later", f"day {pat[j]}")
        elif j == i - 1:
            ctx.check(bor(got == b, got == b - (0 if ctx.symbolic else 1)), "last", "last over-registered day against the first reliable one")
        else:
            v = rows[j][1]
            e = 0 if ctx.symbolic else 1
            ctx.check(band(got * a <= v * b + e * a, v * b < (got + 1 + e) * a), "earlier", f"day {pat[j]}")


def near(a, b):
    e = F(1, 2 ** 10)
    return band(a - b <= e, b - a <= e)


def maximum(ctx, case):
    w = ctx.world()
    pat = case["pat"]
    rows = [list(r) for r in series(ctx, "campA", pat, 10 ** 6)]
    other = series(ctx, "campB", [x + 1 for x in pat], 10 ** 6)
    i = None
    if case["cor"] and len(pat) > 1 and pat[1] >= 0:
        i = 1
        rows[0][1], rows[1][1] = ctx.choice("pair", PAIRS)
    put("total.csv", [(0, 2000000)], 0)
    put("campA.csv", [tuple(r) for r in rows], 0)
    put("campB.csv", other, 2)
    d = load(w, {"total": ["total.csv"], "campA": ["campA.csv"], "campB": ["campB.csv"]})
    if i:
        d.correctLevel1Registrations("campA", day(pat[1]))
        rows[0][1] = rows[1][1]
    end = ctx.int("end", -10, 40)
    for n, r in (("campA", rows), ("campB", other)):
        got = d.getMaxFromData(name="".join(list(n)), days=end)
        want = 0
        done = False
        for x, v in r:
            if done:
                break
            want = smax(want, v)
            if x >= end:
                done = True
        ctx.check_eq(got, want, "maximum", f"largest registration of {n}")
