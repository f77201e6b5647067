"""C27: distances between locations are great-circle distances.

The trigonometric functions are axiomatised: the sine and cosine of half of each latitude, of half of the first longitude and of half of the
longitude difference are real variables on the unit circle, those of every other angle the code forms follow by the addition formulas; an angle
between 0 and 90 degrees is identified by the square of its sine (injectivity and monotonicity).
"""
import math
from fractions import Fraction

from symx import core
from symx.core import Unsupported

from .lib import *

BOUNDS = "every pair of latitudes (-90..90) and longitudes, every other property of the two locations; one rounding error of up to 1e-15 in every sine and cosine for the question whether a distance exists at all"
OUTSIDE = "the size of the accumulated rounding error of the result; coordinates outside the ranges of latitudes and longitudes"
ASSUMPTIONS = ["sine, cosine and the inverse functions are characterised by their identities (unit circle, addition, injectivity, monotonicity)"]
R = 6371
EPS = frac("0.000000001")
# pairs that the formula's rounding errors take beyond the antipode (used to confirm a counterexample of the rounding model)
ANTIPODES = [(48.2, -6.5), (25.2, -160.5), (-89.11720156806719, -81.7), (-14.433968274472548, -160.4), (0.0, 0.0), (-63.7, -83.7), (90.0, 0.0)]


def cases(tier):
    cs = [dict(t="formula", swap=s, noise=n) for s in (False, True) for n in (False, "same", "different")]
    cs += [dict(t="lemma")]
    cs += [dict(t="itself"), dict(t="sameplace"), dict(t="limits"), dict(t="rounding")]
    cs += [dict(t="line", axis=a) for a in ("meridian", "equator")]
    return cs


def harness(ctx, case):
    globals()[case["t"]](ctx, case)


def condition_in(t):
    """the condition of an if-then-else inside a term"""
    import z3
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return condition_in(x.arg(0)) or x.arg(0)
        todo.extend(x.children())
    return None


class Trig:
    """angles, sines, cosines"""

    def __init__(self, ctx, noise=0):
        self.ctx, self.noise = ctx, noise
        self.n = 0
        self.base = {}
        self.coord = {}
        self.memo = {}
        self.angles = []
        if ctx.symbolic:
            ctx.math_hook = self.hook
            ctx.nlsat_first = True

    def place(self, lemma=True):
        """latitudes and longitudes of two locations; in replay the numbers follow from the sines and cosines"""
        ctx = self.ctx
        out = []
        for nm in ("lat1", "lat2", "lon1", "dlon"):
            s, c = ctx.real(nm + ".sin_half", -1, 1), ctx.real(nm + ".cos_half", -1 if nm == "dlon" else 0, 1)
            if ctx.symbolic:
                ctx.assume(s * s + c * c == 1)
                if nm.startswith("lat"):
                    ctx.assume(c >= s)
                    ctx.assume(c >= -s)
            self.base[nm] = (s, c)
            out.append(0.0 if ctx.symbolic else 2 * math.degrees(math.atan2(s, c)))
        y1, y2, x1 = [ctx.real(n, -90, 90) for n in ("y1", "y2", "x1")]
        x2 = ctx.real("x2", -180, 180)
        if ctx.symbolic:
            self.vars = {"y1": y1, "y2": y2, "x1": x1, "x2": x2}
            b = self.base
            ctx.assume(iff(y1 == y2, band(b["lat1"][0] == b["lat2"][0], b["lat1"][1] == b["lat2"][1])))
            ctx.assume(implies(x1 == x2, band(b["dlon"][0] == 0, b["dlon"][1] == 1)))
            if lemma:       # proven in case "lemma"
                h = hav(self)
                ctx.assume(band(h >= 0, h <= 1))
        else:
            y1, y2 = [min(90.0, max(-90.0, v)) for v in out[:2]]
            x1, x2 = out[2], out[2] + out[3]
            if x2 > 180:
                x2 -= 360
            if x2 < -180:
                x2 += 360
            if abs(out[3]) < 1e-9:
                x2 = x1
            if abs(y1 - y2) < 1e-9:
                y2 = y1
        return y1, x1, y2, x2

    def decided(self, v):
        """the term with its if-then-elses decided (one path for each outcome)"""
        import z3
        t = core.to_real(v)
        while True:
            c = condition_in(t)
            if c is None:
                return t
            t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(self.ctx.branch(c)))))

    # -- linear form of an angle over the coordinates, in units of the base angles
    def form(self, v):
        import z3
        t = self.decided(v)
        vs = {k: x.t for k, x in self.vars.items()}

        def at(**kw):
            r = z3.simplify(z3.substitute(t, *[(x, z3.RealVal(kw.get(k, 0))) for k, x in vs.items()]))
            if not z3.is_rational_value(r):
                raise Unsupported("angle that is not linear in the coordinates")
            return Fraction(r.numerator_as_long(), r.denominator_as_long())
        zero = at()
        co = {k: at(**{k: 1}) - zero for k in vs}
        if abs(zero + 3 * co["y1"] + 5 * co["y2"] + 7 * co["x1"] + 11 * co["x2"] - at(y1=3, y2=5, x1=7, x2=11)) > Fraction(1, 10**9):
            raise Unsupported("angle that is not linear in the coordinates")
        unit = Fraction(math.pi) / 360          # radians per degree, half angle
        k = {n: c / unit for n, c in co.items()}
        f = {"lat1": k["y1"], "lat2": k["y2"], "lon1": k["x1"] + k["x2"], "dlon": k["x2"], "const": zero / (Fraction(math.pi) / 2)}
        out = {}
        for n, c in f.items():
            i = round(c)
            if abs(c - i) > Fraction(1, 10**8) or abs(i) > 8:
                raise Unsupported("angle that is no combination of half coordinates")
            if i:
                out[n] = i
        return tuple(sorted(out.items()))

    def sincos(self, f):
        r = self.memo.get(f)
        if r is None:
            s, c = 0, 1
            for n, i in f:
                bs, bc = (1, 0) if n == "const" else self.base[n]
                if i < 0:
                    bs = -bs
                for _ in range(abs(i)):
                    s, c = s * bc + c * bs, c * bc - s * bs
            r = self.memo[f] = (s, c)
        return r

    def angle(self, t):
        """the angle between 0 and 90 degrees whose squared sine is t"""
        tt = core.to_real(t)
        for u, th in self.angles:
            if core.rational_identity(tt, core.to_real(u)):
                return th
        th = self.ctx.real(f"angle{len(self.angles)}", 0)
        half = Fraction(math.pi) / 2
        self.ctx.assume(band(th <= half, iff(t <= 0, th == 0), iff(t >= 1, th == half)))
        for u, p in self.angles:
            self.ctx.assume(band(implies(t == u, th == p), implies(t < u, th < p), implies(t > u, th > p)))
        self.angles.append((t, th))
        return th

    def square(self, v):
        """v*v, through the defining equation where v is a square root"""
        t = core.to_real(v)
        for _, (orig, s) in self.ctx.sqrt_memo.items():
            if t.eq(s):
                return core.SymReal(self.decided(core.SymReal(orig)))
        return v * v

    def hook(self, n, a):
        if n == "radians":
            return a[0] * Fraction(math.pi) / 180
        if n == "degrees":
            return a[0] * 180 / Fraction(math.pi)
        if n in ("sin", "cos"):
            r = self.sincos(self.form(a[0]))[0 if n == "sin" else 1]
            if self.noise:
                self.n += 1
                r = r + self.ctx.real(f"rounding{self.n}", -frac(self.noise), frac(self.noise))
            return r if is_sym(r) else float(r)
        if n == "asin":
            self.ctx.assume(a[0] >= 0)
            return self.angle(self.square(a[0]))
        if n == "acos":
            return 2 * self.angle((1 - a[0]) / 2)
        if n == "atan2":
            import z3
            y2, x2 = self.square(a[0]), self.square(a[1])
            s = z3.simplify(core.to_real(y2 + x2), som=True)
            if z3.is_rational_value(s) and s.numerator_as_long() == s.denominator_as_long():
                return self.angle(y2)
            return self.angle(y2 / (y2 + x2))
        raise Unsupported("math." + n)


def hav(tr, y1=0, x1=0, y2=0, x2=0):
    """the haversine of the angle between the two places"""
    if tr.ctx.symbolic:
        b = tr.base
        sd = b["lat2"][0] * b["lat1"][1] - b["lat2"][1] * b["lat1"][0]
        c1, c2 = [b[n][1] * b[n][1] - b[n][0] * b[n][0] for n in ("lat1", "lat2")]
        return sd * sd + c1 * c2 * b["dlon"][0] * b["dlon"][0]
    p1, p2, dl = math.radians(y1), math.radians(y2), math.radians(x2 - x1)
    return math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2


def spec(tr, *p):
    a = hav(tr, *p)
    if tr.ctx.symbolic:
        return 2 * R * tr.angle(a)
    return 2 * R * math.asin(math.sqrt(min(1.0, a)))


def near(ctx, d, want, label, msg):
    tol = frac("0.000001") if ctx.symbolic else 0.01
    ctx.check(band(d - want <= tol, want - d <= tol), label, f"{msg}: {d}, expected {want}")


def two(ctx, y1, x1, y2, x2, noise=False):
    w = ctx.world()
    settings(w, {})
    e = w.flee.Ecosystem()
    a = e.addLocation(name="alpha", x=x1, y=y1, location_type="conflict_zone", pop=100)
    b = e.addLocation(name="beta", x=x2, y=y2, location_type="camp", pop=5, capacity=10)
    if noise:
        e.linkUp("alpha", "beta", ctx.real("road", 0, 5000))
        e.addAgent(a, {})
        vague(ctx, e)
        for loc in (a, b):
            loc.movechance = ctx.real(loc.name + ".move", 0, 1)
            loc.region = "north" if loc is a or noise == "same" else "south"
            loc.country = "here" if loc is a or noise == "same" else "there"
            loc.camp = ctx.bool(loc.name + ".camp")
            loc.town = ctx.bool(loc.name + ".town")
            loc.conflict = ctx.real(loc.name + ".conflict", 0, 1)
            loc.marker = ctx.bool(loc.name + ".marker")
    return a, b


def lemma(ctx, case):
    """the haversine of two places lies between 0 and 1 (used by the other cases)"""
    tr = Trig(ctx)
    p = tr.place(lemma=False)
    h = hav(tr, *p)
    e = 0 if ctx.symbolic else EPS
    ctx.check(band(h >= -e, h <= 1 + e), "lemma", "haversine outside 0..1")
    two(ctx, *p)


def formula(ctx, case):
    tr = Trig(ctx)
    p = tr.place()
    a, b = two(ctx, *p, noise=case["noise"])
    want = spec(tr, *p)
    if case["swap"]:
        a, b = b, a
    d = a.calculateDistance(b)
    near(ctx, d, want, "formula", f"distance of {a.name} to {b.name}")
    again = a.calculateDistance(b)
    near(ctx, again, want, "again", "the same distance asked again")
    back = b.calculateDistance(a)
    near(ctx, back, want, "symmetric", "the way back")
    for loc, (y, x) in ((a, p[:2]), (b, p[2:])) if not case["swap"] else ((b, p[:2]), (a, p[2:])):
        ctx.check(band(loc.x == x, loc.y == y), "moved", f"{loc.name} has moved")


def itself(ctx, case):
    tr = Trig(ctx)
    p = tr.place()
    a, b = two(ctx, *p)
    for loc in (a, b):
        d = loc.calculateDistance(loc)
        ctx.check(band(d <= frac("0.0000001"), d >= 0), "itself", f"distance of {loc.name} to itself: {d}")


def sameplace(ctx, case):
    tr = Trig(ctx)
    y1, x1, _, _ = tr.place()
    a, b = two(ctx, y1, x1, y1, x1)
    d = a.calculateDistance(b)
    ctx.check(band(d <= frac("0.0000001"), d >= 0), "same-place", f"distance between two locations in the same place: {d}")


def limits(ctx, case):
    tr = Trig(ctx)
    p = tr.place()
    a, b = two(ctx, *p)
    d = a.calculateDistance(b)
    ctx.check(d >= 0, "negative", f"negative distance {d}")
    ctx.check(d <= R * Fraction(math.pi) + frac("0.000001"), "too-far", f"distance {d} exceeds half the circumference")


def line(ctx, case):
    """along a meridian, or the equator, the distance is the length of the arc"""
    w = ctx.world()
    settings(w, {})
    tr = Trig(ctx)
    y1, x1, y2, x2 = tr.place()
    if case["axis"] == "meridian":
        a, b = two(ctx, y1, x1, y2, x1)
        s = tr.base["lat2"][0] * tr.base["lat1"][1] - tr.base["lat2"][1] * tr.base["lat1"][0]
    else:
        a, b = two(ctx, 0, x1, 0, x2)
        s = tr.base["dlon"][0]
    d = a.calculateDistance(b)
    if ctx.symbolic:
        near(ctx, d, 2 * R * tr.angle(s * s), "arc", "arc")
    else:
        near(ctx, d, 2 * R * math.asin(min(1.0, abs(s))), "arc", "arc")


def rounding(ctx, case):
    """a distance exists whatever the rounding errors of the trigonometric functions"""
    if ctx.symbolic:
        tr = Trig(ctx, noise="0.000000000000001")
        p = tr.place()
        b = tr.base
        # opposite places: where the haversine is 1
        ctx.assume(band(b["lat2"][0] == -b["lat1"][0], b["lat2"][1] == b["lat1"][1], b["dlon"][1] == 0, b["dlon"][0] == 1))
        for s, c in (b["lat1"],):
            ctx.assume(c * c - s * s >= frac("0.001"))
        a, bb = two(ctx, *p)
        d = a.calculateDistance(bb)
        ctx.check(d >= 0, "rounding", "negative distance of opposite places")
        return
    for y, x in ANTIPODES:
        a, b = two(ctx, y, x, -y, x + 180 if x <= 0 else x - 180)
        d = a.calculateDistance(b)
        near(ctx, d, R * math.pi, "rounding", "distance of opposite places")
