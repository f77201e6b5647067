"""Symbolic-aware replacements for builtins, math, random and numpy."""
from __future__ import annotations

import builtins
import math as _math
import sys
import types

import numpy as _np

from . import core
from .core import SymBool, SymInt, SymNum, SymReal, Unsupported, is_sym

_real = builtins


def sx_is(a, b):
    if isinstance(a, SymBool) and (b is True or b is False):
        return a if b else core.mk(core.z3.Not(a.t))
    if isinstance(b, SymBool) and (a is True or a is False):
        return b if a else core.mk(core.z3.Not(b.t))
    return a is b


def sx_isnot(a, b):
    r = sx_is(a, b)
    return ~r if isinstance(r, SymBool) else not r


def quiet_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None or file is sys.stderr or file is sys.stdout:
        return
    file.write(sep.join(str(x) for x in a) + end)


def _tok(ctx, s):
    s = s.strip()
    return ctx.tokens.get(s)


def builtin_overrides(ctx):
    class FMeta(type):
        def __instancecheck__(cls, o):
            return _real.isinstance(o, (_real.float, SymReal))

        def __subclasscheck__(cls, o):
            return _real.issubclass(o, _real.float) or o is SymReal

        def __call__(cls, x=0.0):
            if _real.isinstance(x, SymReal):
                return x
            if _real.isinstance(x, SymInt):
                return SymReal(core.to_real(x))
            if _real.isinstance(x, SymBool):
                return SymReal(core.to_real(x))
            if _real.isinstance(x, str):
                v = _tok(ctx, x)
                if v is not None:
                    return cls(v)
            return _real.float(x)

        def __eq__(cls, o):
            return o is cls or o is _real.float or o is SymReal

        def __hash__(cls):
            return hash(_real.float)

    class SxFloat(metaclass=FMeta):
        fromhex = _real.float.fromhex

    class IMeta(type):
        def __instancecheck__(cls, o):
            return _real.isinstance(o, (_real.int, SymInt))

        def __subclasscheck__(cls, o):
            return _real.issubclass(o, _real.int) or o is SymInt

        def __call__(cls, x=0, *base):
            if _real.isinstance(x, SymReal):
                return x.trunc()
            if _real.isinstance(x, SymInt):
                return x
            if _real.isinstance(x, SymBool):
                return SymInt(core.z3.If(x.t, core.z3.IntVal(1), core.z3.IntVal(0)))
            if _real.isinstance(x, str):
                v = _tok(ctx, x)
                if v is not None:
                    if _real.isinstance(v, SymInt):
                        return v
                    raise ValueError("invalid literal for int() with base 10: " + repr(x))
            return _real.int(x, *base)

        def __eq__(cls, o):
            return o is cls or o is _real.int or o is SymInt

        def __hash__(cls):
            return hash(_real.int)

    class SxInt(metaclass=IMeta):
        from_bytes = _real.int.from_bytes

    class BMeta(type):
        def __instancecheck__(cls, o):
            return _real.isinstance(o, (_real.bool, SymBool))

        def __call__(cls, x=False):
            if _real.isinstance(x, SymBool):
                return x
            if _real.isinstance(x, SymNum):
                return x != 0
            return _real.bool(x)

        def __eq__(cls, o):
            return o is cls or o is _real.bool or o is SymBool

        def __hash__(cls):
            return hash(_real.bool)

    class SxBool(metaclass=BMeta):
        pass

    def sx_max(*args, key=None, **kw):
        if len(args) == 1:
            args = list(args[0])
            if not args:
                if "default" in kw:
                    return kw["default"]
                raise ValueError("max() arg is an empty sequence")
        if key is not None:
            return _real.max(args, key=key)
        if not any(is_sym(a) for a in args):
            return _real.max(args)
        r = args[0]
        for a in args[1:]:
            r = core.ite(a > r, a, r)
        return r

    def sx_min(*args, key=None, **kw):
        if len(args) == 1:
            args = list(args[0])
            if not args:
                if "default" in kw:
                    return kw["default"]
                raise ValueError("min() arg is an empty sequence")
        if key is not None:
            return _real.min(args, key=key)
        if not any(is_sym(a) for a in args):
            return _real.min(args)
        r = args[0]
        for a in args[1:]:
            r = core.ite(a < r, a, r)
        return r

    def sx_round(x, n=None):
        if _real.isinstance(x, SymNum):
            return x.__round__(n)
        return _real.round(x, n) if n is not None else _real.round(x)

    def sx_type(*a):
        if len(a) == 1:
            t = _real.type(a[0])
            return {SymReal: SxFloat, SymInt: SxInt, SymBool: SxBool, _real.float: SxFloat, _real.int: SxInt,
                    _real.bool: SxBool}.get(t, t)
        return _real.type(*a)

    return dict(float=SxFloat, int=SxInt, bool=SxBool, max=sx_max, min=sx_min, round=sx_round, print=quiet_print)


# ------------------------------------------------------------------------------------------------
# randomness (both modes): the harness owns every draw


class RandomModule(types.ModuleType):
    def __init__(self, ctx):
        super().__init__("random")
        self.__dict__["ctx"] = ctx

    def seed(self, *a, **k):
        return None

    def random(self):
        ctx = self.ctx
        v = ctx.real(ctx.rng_name("rnd"), 0, 1, hi_open=True)
        ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="random", value=v))
        return v

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        if a >= b:
            raise ValueError(f"empty range in randrange({a}, {b})")
        ctx = self.ctx
        v = ctx.choice(ctx.rng_name("rint"), range(_idx(a), _idx(b)))
        ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="randint", lo=a, hi=b, value=v))
        return v

    def choice(self, seq):
        seq = list(seq)
        if not seq:
            raise IndexError("Cannot choose from an empty sequence")
        ctx = self.ctx
        i = ctx.choice(ctx.rng_name("pick"), range(len(seq)))
        ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="choice", options=seq, index=i))
        return seq[i]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        ctx = self.ctx
        population = list(population)
        n = len(population)
        if cum_weights is not None:
            cum = list(cum_weights)
            weights = [cum[0]] + [cum[i] - cum[i - 1] for i in range(1, len(cum))]
        if weights is None:
            if n == 0:
                raise IndexError("list index out of range")
            weights = [1.0] * n
            ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="choices", options=population, weights=None, k=k))
        else:
            weights = list(weights)
            if len(weights) != n:
                raise ValueError("The number of weights does not match the population")
            ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="choices", options=population, weights=list(weights), k=k))
            if getattr(ctx, "on_draw", None) is not None:
                ctx.on_draw(ctx.draws[-1])
            total = weights[0]
            for w in weights[1:]:
                total = total + w
            if total <= 0:
                raise ValueError("Total of weights must be greater than zero")
            if _isnan(total):
                raise ValueError("Total of weights must be finite")
        out = []
        for _ in range(_idx(k)):
            i = _pick_index(ctx, weights)
            out.append(population[i])
        ctx.draws[-1]["result"] = out
        return out

    def gauss(self, *a):
        raise Unsupported("random.gauss")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("random." + n)


def _idx(v):
    return v if isinstance(v, int) else v.__index__()


def _isnan(v):
    return isinstance(v, float) and v != v


def _pick_index(ctx, weights):
    """an index with positive weight, chosen by the explorer"""
    n = len(weights)
    if n == 1:
        return 0
    name = ctx.rng_name("widx")
    if ctx.symbolic:
        i = ctx.int(name, 0, n - 1)
        for j, w in enumerate(weights):
            c = w > 0
            if c is True:
                continue
            ctx.assume(core.implies(i == j, c))
        return i.concretize()
    i = ctx.int(name, 0, n - 1)
    if not (0 <= i < n) or not weights[i] > 0:
        i = max(range(n), key=lambda j: weights[j])
    return i


class NpRandom:
    def __init__(self, ctx, sym):
        self.ctx, self.sym = ctx, sym
        self.r = RandomModule(ctx)

    def seed(self, *a):
        return None

    def random(self, size=None):
        if size is None:
            return self.r.random()
        return _arr(self.sym, [self.r.random() for _ in range(_idx(size))])

    rand = random
    random_sample = random

    def uniform(self, a=0.0, b=1.0, size=None):
        if size is None:
            return self.r.uniform(a, b)
        return _arr(self.sym, [self.r.uniform(a, b) for _ in range(_idx(size))])

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        if low >= high:
            raise ValueError("low >= high")
        if size is None:
            return self.r.randrange(low, high)
        return _arr(self.sym, [self.r.randrange(low, high) for _ in range(_idx(size))])

    def poisson(self, lam=1.0, size=None):
        ctx = self.ctx
        if lam < 0:
            raise ValueError("lam < 0 or lam is NaN")
        v = ctx.int(ctx.rng_name("poisson"), 0, getattr(ctx, "poisson_max", 2))
        if ctx.symbolic:
            ctx.assume(core.implies(lam == 0, v == 0))
        ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="poisson", lam=lam, value=v))
        return v

    def choice(self, a, size=None, replace=True, p=None):
        ctx = self.ctx
        pop = list(range(_idx(a))) if isinstance(a, (int, SymInt)) else list(a)
        k = 1 if size is None else _idx(size)
        if len(pop) == 0 and k != 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if k < 0:
            raise ValueError("negative dimensions are not allowed")
        if p is not None:
            p = list(p)
            if len(p) != len(pop):
                raise ValueError("'a' and 'p' must have same size")
            tot = p[0]
            for w in p[1:]:
                tot = tot + w
            for w in p:
                if _isnan(w):
                    raise ValueError("probabilities contain NaN")
                if w < 0:
                    raise ValueError("probabilities are not non-negative")
            if not ((tot - 1 < 1e-8) and (1 - tot < 1e-8)):
                raise ValueError("probabilities do not sum to 1")
            ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="np.choice", options=pop, weights=p, k=k))
        else:
            p = [1.0] * len(pop)
            ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="np.choice", options=pop, weights=None, k=k))
        out = [pop[_pick_index(ctx, p)] for _ in range(k)]
        ctx.draws[-1]["result"] = out
        if size is None:
            return out[0]
        r = _np.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random." + n)


def _arr(sym, vals):
    if sym:
        r = _np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            r[i] = v
        return r
    return _np.array(vals)


class RealNumpy(types.ModuleType):
    def __init__(self, ctx):
        super().__init__("numpy")
        self.__dict__["random"] = NpRandom(ctx, False)

    def __getattr__(self, n):
        return getattr(_np, n)


def _has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    return False


class SymNumpy(types.ModuleType):
    """numpy with object arrays for anything that may hold symbolic values"""

    def __init__(self, ctx):
        super().__init__("numpy")
        self.__dict__["ctx"] = ctx
        self.__dict__["random"] = NpRandom(ctx, True)

    def __getattr__(self, n):
        return getattr(_np, n)

    def array(self, obj, dtype=None, copy=True, **kw):
        a = _np.array(obj, dtype=object, **kw)
        return a

    def asarray(self, obj, dtype=None, **kw):
        return obj if isinstance(obj, _np.ndarray) else _np.array(obj, dtype=object)

    def zeros(self, shape, dtype=float, **kw):
        z = _np.empty(_shape(shape), dtype=object)
        z[...] = 0 if dtype in ("i", "int", int, "l", _np.int32, _np.int64) else 0.0
        return z

    def ones(self, shape, dtype=float, **kw):
        z = _np.empty(_shape(shape), dtype=object)
        z[...] = 1 if dtype in ("i", "int", int, "l", _np.int32, _np.int64) else 1.0
        return z

    def full(self, shape, v, dtype=None, **kw):
        z = _np.empty(_shape(shape), dtype=object)
        z[...] = v
        return z

    def empty(self, shape, dtype=float, **kw):
        return self.zeros(shape, dtype)

    def abs(self, x, **kw):
        if isinstance(x, _np.ndarray):
            r = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                r[i] = abs(x[i])
            return r
        return abs(x)

    absolute = abs
    fabs = abs

    def round(self, x, decimals=0, **kw):
        if isinstance(x, _np.ndarray):
            r = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                r[i] = self.round(x[i], decimals)
            return r
        if isinstance(x, SymNum):
            return x.__round__(decimals)
        return _np.round(x, decimals)

    around = round

    def log(self, x, **kw):
        if isinstance(x, _np.ndarray):
            r = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                r[i] = self.log(x[i])
            return r
        if isinstance(x, SymNum):
            return self.ctx.uf("log", x)
        return _np.log(x)

    def sqrt(self, x, **kw):
        if isinstance(x, SymNum):
            return core.sym_pow(x, 0.5)
        return _np.sqrt(x)

    def maximum(self, a, b):
        return self._emap(lambda x, y: core.ite(x > y, x, y), a, b)

    def minimum(self, a, b):
        return self._emap(lambda x, y: core.ite(x < y, x, y), a, b)

    def where(self, c, a=None, b=None):
        if a is None:
            return _np.where(c)
        return self._emap3(lambda x, y, z: core.ite(x, y, z), c, a, b)

    @staticmethod
    def _emap(f, a, b):
        if not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
            return f(a, b)
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        r = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            r[i] = f(a[i], b[i])
        return r

    @staticmethod
    def _emap3(f, a, b, c):
        a, b, c = _np.broadcast_arrays(*[_np.asarray(x, dtype=object) for x in (a, b, c)])
        r = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            r[i] = f(a[i], b[i], c[i])
        return r

    def max(self, x, *a, **k):
        vals = list(_np.asarray(x, dtype=object).ravel())
        r = vals[0]
        for v in vals[1:]:
            r = core.smax(v, r)
        return r

    amax = max

    def min(self, x, *a, **k):
        vals = list(_np.asarray(x, dtype=object).ravel())
        r = vals[0]
        for v in vals[1:]:
            r = core.smin(v, r)
        return r

    amin = min

    def sum(self, x, *a, **k):
        if a or k:
            return _np.sum(x, *a, **k)
        arr = _np.asarray(x, dtype=object).ravel()
        t = 0.0 if len(arr) == 0 else 0
        for v in arr:
            t = t + v
        return t

    def mean(self, x, *a, **k):
        arr = _np.asarray(x, dtype=object).ravel()
        t = 0.0
        for v in arr:
            t = t + v
        if len(arr) == 0:
            return float("nan")
        return t / float(len(arr))

    average = mean

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not is_sym(a) and not is_sym(b):
            return _np.isclose(a, b, rtol, atol)
        return abs(a - b) <= atol + rtol * abs(b)

    def isnan(self, x):
        if is_sym(x):
            return False
        return _np.isnan(x)

    def float64(self, x=0.0):
        if is_sym(x):
            return SymReal(core.to_real(x))
        return float(x)


def _shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(_idx(i) for i in s)
    return _idx(s)


class SymMath(types.ModuleType):
    """math with uninterpreted transcendental functions"""

    def __init__(self, ctx):
        super().__init__("math")
        self.__dict__["ctx"] = ctx

    def __getattr__(self, n):
        real = getattr(_math, n)
        if not callable(real):
            return real
        ctx = self.ctx

        def f(*a):
            if not any(is_sym(x) for x in a):
                return real(*a)
            return sym_math(ctx, n, a)

        return f


def sym_math(ctx, n, a):
    if n == "sqrt":
        return ctx.sqrt(a[0])
    if n == "floor":
        return a[0].__floor__()
    if n == "ceil":
        return a[0].__ceil__()
    if n == "trunc":
        return a[0].__trunc__()
    if n in ("fabs",):
        return abs(a[0])
    if n == "pow":
        return core.sym_pow(a[0], a[1])
    if n == "isnan" or n == "isinf":
        return False
    if n == "isclose":
        return abs(a[0] - a[1]) <= 1e-9 * core.smax(abs(a[0]), abs(a[1]))
    if n in ("radians", "sin", "cos", "atan2", "asin", "acos", "exp", "log", "degrees", "hypot", "tan", "atan"):
        h = getattr(ctx, "math_hook", None)
        if h is not None:
            return h(n, a)
        return ctx.uf(n, *a)
    raise Unsupported("math." + n)
