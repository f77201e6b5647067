"""C25: validation error measures equal their definitions."""
import itertools

import numpy as real_numpy

from .lib import *

BOUNDS = ("all real values 0..1e6 of single values and references, arrays of length 1 to 4 with every value 0..1e6, forecast starts 0 to 2; up to 3 locations in every order with every difference and weight; "
          "the error quantification of the plotting programs for 1 to 3 days, every simulated and observed count (totals: every value for 1 day, a few combinations beyond), with and without rescaling")
OUTSIDE = "arrays longer than 4 (each measure is a sum or elementwise); drawing of the figures; spread-sheet reading (pandas); reference values that make a scaled error undefined (no naive error at all)"
ASSUMPTIONS = ["numbers are exact reals; the natural logarithm is an uninterpreted function", "pandas and the drawing libraries are replaced by inert stand-ins"]
MODS = ("StoreDiagnostics", "plot_flee_output", "plotly_flee_output", "plot_flee_uq_output", "extract-validation-results", "plot-flee-uq-output-more")
EPS = frac("1e-7")


def cases(tier):
    T = tier == "thorough"
    cs = [dict(t="single", what=m) for m in ("rel", "abs")]
    for n in (1, 2, 3, 4) + ((6,) if T else ()):
        cs.append(dict(t="arrays", n=n))
    for n in (1, 2) + ((3,) if T else ()):
        cs.append(dict(t="logratio", n=n))
    for n, s in ((2, 0), (3, 0), (3, 1), (4, 2)) + (((4, 0), (5, 2), (6, 1)) if T else ()):
        for kind in ("any", "perfect"):
            cs.append(dict(t="scaled", n=n, start=s, kind=kind))
    for m in MODS:
        for n in (1, 2, 3):
            cs.append(dict(t="total", mod=m, n=n, days=2))
            cs.append(dict(t="weighted", mod=m, n=n, days=2, arrays=False))
        cs.append(dict(t="weighted", mod=m, n=2, days=2, arrays=True))
    for m in ("plot_flee_output", "plotly_flee_output", "extract-validation-results", "plot-flee-uq-output-more"):
        for d in (1, 2):
            cs.append(dict(t="quantify", mod=m, days=d, offset=0))
    cs.append(dict(t="quantify", mod="plot-flee-uq-output-more", days=3, offset=1))
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def arr(ctx, vals):
    if ctx.symbolic:
        a = real_numpy.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        return a
    return real_numpy.array([float(v) for v in vals])


def series(ctx, name, n, lo=0, hi=1000000):
    return [ctx.real(f"{name}{i}", lo, hi) for i in range(n)]


def close(ctx, got, want, label, msg, by=0):
    """got equals want up to rounding to four digits (by more, where stated)"""
    d = abs(got - want)
    tol = frac("0.00005") + EPS + by
    if not ctx.symbolic:
        tol = float(tol) + 1e-9 * abs(float(want))
    ctx.check(d <= tol, label, f"{msg}: {got}, expected {want}")
    ctx.check(got >= 0, label + "-negative", f"{msg}: {got} is negative")


def four(ctx, v, label, msg):
    if ctx.symbolic:
        if is_sym(v):
            x = v * 10000
            ctx.check(x - x.__floor__() == 0, label + "-digits", f"{msg}: {v} has more than four digits")
    else:
        ctx.check(abs(float(v) * 1e4 - round(float(v) * 1e4)) < 1e-3, label + "-digits", f"{msg}: {v} has more than four digits")


def single(ctx, case):
    w = ctx.world()
    a = w.load("flee.postprocessing.analysis")
    v = ctx.real("value", 0, 1000000)
    c = ctx.real("reference", 0, 1000000)
    if case["what"] == "abs":
        r = a.abs_error(v, c)
        close(ctx, r, abs(v - c), "abs_error", "absolute error")
        four(ctx, r, "abs_error", "absolute error")
        ctx.check(implies(v == c, r == 0), "abs_error-perfect", "absolute error of a perfect value")
        close(ctx, a.abs_error(c, v), abs(v - c), "abs_error", "absolute error (swapped)")
        return
    ctx.assume(bor(c == 0, c < frac("0.000009"), c >= frac("0.000011")))
    ctx.assume(bor(c < frac("0.000011"), c >= 1, v <= c * 1000))
    r = a.rel_error(v, c)
    if c < frac("0.00001"):
        ctx.check(r == 0, "rel_error", f"relative error with vanishing reference is {r}")
        return
    close(ctx, r * c, abs(v - c), "rel_error", "relative error times reference", by=c * frac("0.00005"))
    four(ctx, r, "rel_error", "relative error")
    ctx.check(implies(v == c, r == 0), "rel_error-perfect", "relative error of a perfect value")


def arrays(ctx, case):
    w = ctx.world()
    a = w.load("flee.postprocessing.analysis")
    n = case["n"]
    f, c = series(ctx, "forecast", n), series(ctx, "actual", n)
    F, C = arr(ctx, f), arr(ctx, c)
    d = a.abs_diffs(F, C)
    ctx.check(len(d) == n, "abs_diffs", f"{len(d)} differences of {n}")
    for i in range(n):
        close(ctx, d[i], abs(f[i] - c[i]), "abs_diffs", f"difference {i}")
        four(ctx, d[i], "abs_diffs", f"difference {i}")
        ctx.check(implies(f[i] == c[i], d[i] == 0), "abs_diffs-perfect", "difference of a perfect forecast")
    m = a.mean_abs_diffs(F, C)
    t = 0
    for i in range(n):
        t = t + abs(f[i] - c[i])
    close(ctx, m * n, t, "mean", "mean difference times length", by=n * frac("0.00005"))
    four(ctx, m, "mean", "mean difference")
    ctx.check(implies(t == 0, m == 0), "mean-perfect", "mean difference of a perfect forecast")
    same = band(*[F[i] == f[i] for i in range(n)], *[C[i] == c[i] for i in range(n)]) if n > 0 else True
    ctx.check(same, "inputs", "the measures changed their inputs")


def logratio(ctx, case):
    w = ctx.world()
    a = w.load("flee.postprocessing.analysis")
    n = case["n"]
    f, c = series(ctx, "forecast", n, 1), series(ctx, "actual", n, 1)
    r = a.calculate_ln_accuracy_ratio(arr(ctx, f), arr(ctx, c))
    t = 0
    for i in range(n):
        if ctx.symbolic:
            t = t + abs(ctx.uf("log", f[i] / c[i]))
        else:
            import math
            t = t + abs(math.log(f[i] / c[i]))
    close(ctx, r * n, t, "logratio", "mean logarithmic ratio times length", by=n * frac("0.00005"))


def scaled(ctx, case):
    w = ctx.world()
    a = w.load("flee.postprocessing.analysis")
    n, s = case["n"], case["start"]
    act, nai = series(ctx, "actual", n), series(ctx, "naive", n)
    f = list(act) if case["kind"] == "perfect" else series(ctx, "forecast", n)
    nerr, ferr = 0, 0
    for i in range(s + 1, n):
        nerr = nerr + abs(act[i] - nai[i])
    for i in range(n):
        ferr = ferr + abs(act[i] - f[i])
    k = n - (s + 1)
    ctx.assume(nerr >= 1)
    if case["kind"] == "perfect":
        r = a.calculate_MASE(arr(ctx, f), arr(ctx, act), arr(ctx, nai), s)
        ctx.check(r == 0, "scaled-perfect", f"scaled error of a perfect forecast: {r}")
        return
    r = a.calculate_MASE(forecast_vals=arr(ctx, f), actual_vals=arr(ctx, act), naieve_vals=arr(ctx, nai), start_of_forecast_period=s)
    ctx.check(r >= 0, "scaled-negative", f"scaled error {r} is negative")
    four(ctx, r, "scaled", "scaled error")
    # r = (ferr/n) / (nerr/k)
    if ctx.symbolic:
        ctx.check(band(r * nerr * n - ferr * k <= frac("0.0001") * nerr * n, ferr * k - r * nerr * n <= frac("0.0001") * nerr * n), "scaled", "scaled error is not the ratio of the mean errors")
    else:
        want = (float(ferr) / n) / (float(nerr) / k)
        ctx.check(abs(r - want) <= 1e-4 + 1e-9 * want, "scaled", f"scaled error {r}, expected {want}")


def loc_errors(ctx, m, errors):
    out = []
    for e in errors:
        le = m.LocationErrors()
        le.errors.update(e)
        out.append(le)
    return out


def total(ctx, case):
    w = ctx.world()
    m = w.load("flee.postprocessing." + case["mod"])
    n, days = case["n"], case["days"]
    d = [series(ctx, f"diff{i}_", days) for i in range(n)]
    r = [series(ctx, f"resc{i}_", days) for i in range(n)]
    orders = list(itertools.permutations(range(n)))
    for order in orders:
        objs = loc_errors(ctx, m, [{"absolute difference": arr(ctx, d[i]), "absolute difference rescaled": arr(ctx, r[i]), "N": 1} for i in order])
        se = m.SimulationErrors(objs)
        for again in range(2):
            for resc, src in ((False, d), (True, r)):
                got = se.abs_diff(rescaled=resc)
                ctx.check(len(got) == days, "total", f"{len(got)} totals for {days} days")
                for k in range(days):
                    want = 0
                    for i in range(n):
                        want = want + src[i][k]
                    x = got[k] - want
                    ctx.check(band(x <= EPS, x >= -EPS), "total", f"total {'rescaled ' if resc else ''}difference of day {k} over {n} locations in order {order} ({'again' if again else 'first'}): {got[k]}, expected {want}")
        got = se.abs_diff()
        ctx.check(band(*[band(got[k] - sum_(r, k) <= EPS, sum_(r, k) - got[k] <= EPS) for k in range(days)], True), "total-default", "the total defaults to rescaled differences")


def sum_(src, k):
    t = 0
    for s in src:
        t = t + s[k]
    return t


def weighted(ctx, case):
    w = ctx.world()
    m = w.load("flee.postprocessing." + case["mod"])
    n, days = case["n"], case["days"]
    err = [series(ctx, f"err{i}_", days if case["arrays"] else 1, 0, 1000) for i in range(n)]
    N = [ctx.int(f"N{i}", 0, 100000) for i in range(n)]
    tot = 0
    for x in N:
        tot = tot + x
    ctx.assume(tot >= 1)
    for order in itertools.permutations(range(n)):
        objs = loc_errors(ctx, m, [{"MASE7": arr(ctx, err[i]) if case["arrays"] else err[i][0], "MASE30": 5, "N": N[i]} for i in order])
        se = m.SimulationErrors(objs)
        for again in range(2):
            got = se.get_error("MASE7")
            for k in range(days if case["arrays"] else 1):
                g = got[k] if case["arrays"] else got
                want = 0
                for i in range(n):
                    want = want + err[i][k] * N[i]
                ctx.check_eq(g, want / tot, "weighted", f"aggregated error over {n} locations in order {order} ({'again' if again else 'first'})")
        for i, o in zip(order, objs):
            ctx.check(o.errors["N"] == N[i], "weights", f"aggregating changed the weight of a location: {o.errors['N']}, was {N[i]}")


class Column:
    def __init__(self, a):
        self.a = a

    def to_numpy(self):
        return self.a

    as_matrix = to_numpy

    @property
    def values(self):
        return self.a


def quantify(ctx, case):
    w = ctx.world()
    m = w.load("flee.postprocessing." + case["mod"])
    days, off = case["days"], case["offset"]
    sim, dat = series(ctx, "sim", days, 0, 10000), series(ctx, "data", days, 0, 10000)
    if days == 1:
        ssum, dsum = series(ctx, "simtotal", days, 0, 10000), series(ctx, "datatotal", days, 0, 10000)
    else:
        ssum, dsum = [[frac(x) for x in ctx.choice(nm, opts)[:days]] for nm, opts in (("simtotal", [(4096, 512, 2048), (0, 8192, 1024), (1024, 0, 256)]), ("datatotal", [(3000, 7000, 1500), (0, 12000, 3), (9000, 0, 8000)]))]
    for k in range(days):
        ctx.assume(ssum[k] >= sim[k])
        ctx.assume(bor(ssum[k] == 0, ssum[k] >= 1))
        ctx.assume(dsum[k] >= dat[k])
    data = {"camp sim": Column(arr(ctx, sim)), "camp data": Column(arr(ctx, dat)),
            "refugees in camps (simulation)": Column(arr(ctx, ssum)), "refugees in camps (UNHCR)": Column(arr(ctx, dsum))}
    if case["mod"] == "extract-validation-results":
        le = m.plotme(data, "camp", naieve_model=False)
    elif case["mod"] == "plot-flee-uq-output-more":
        le = m.calculate_error("out", data, "camp", off)
    else:
        le = m.error_quantification("conf", data, "camp", naieve_model=False)
    e = le.errors
    for name in ("absolute difference", "absolute difference rescaled", "ratio difference"):
        ctx.check(len(e[name]) == days - off, "quantify-days", f"{name}: {len(e[name])} values for {days} days")
    for k in range(days - off):
        s, d = sim[k + off], dat[k]
        close(ctx, e["absolute difference"][k], abs(s - d), "quantify-abs", f"absolute difference, day {k}")
        x = e["ratio difference"][k]
        if ctx.symbolic:
            den = ite(dsum[k] > 1, dsum[k], 1)
        else:
            den = max(dsum[k], 1.0)
        close(ctx, x * den, abs(s - d), "quantify-ratio", f"relative difference times number of people, day {k}", by=EPS)
        if ssum[k + off] > 0:
            y = e["absolute difference rescaled"][k]
            t = ssum[k + off]
            close(ctx, y, abs(s * dsum[k + off] / t - d), "quantify-rescaled", f"rescaled difference, day {k}", by=1)
        else:
            close(ctx, e["absolute difference rescaled"][k], d, "quantify-rescaled", f"rescaled difference without simulated people, day {k}", by=1)
