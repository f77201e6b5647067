"""Symbolic values and the path explorer.

A harness is an ordinary Python function `harness(ctx, case)`.  It is executed again and again; every
branch on a symbolic condition is a decision of the explorer, whose path condition lives in an incremental
z3 solver.  Assertions (`ctx.check`) are validity queries over all values satisfying the path condition.
"""
from __future__ import annotations

import os
import signal
import sys
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1")) & 0x7FFFFFFF)


class Unsupported(BaseException):
    """The engine cannot represent what the code asks for (never a verdict about the code)."""


class PathAbort(BaseException):
    """The current path is infeasible under the harness assumptions."""


class PathTimeout(BaseException):
    """The current path used up its time (candidate non-termination)."""


class Violation(BaseException):
    """Raised in concrete replay: an assertion failed."""

    def __init__(self, label, msg, key=None):
        super().__init__(label)
        self.label, self.msg, self.key = label, msg, key


# ------------------------------------------------------------------------------------------------
# values

ENGINE = None  # the active SymCtx


def frac(v):
    """python number -> Fraction; floats by their shortest decimal representation."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported(f"non-finite number {v} mixed with symbolic values")
    return Fraction(repr(float(v)))


_rv_cache = {}


def realval(v):
    f = frac(v)
    r = _rv_cache.get(f)
    if r is None:
        r = z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)
        _rv_cache[f] = r
    return r


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def _isnum(v):
    if isinstance(v, (bool, int, float, Fraction)):
        return True
    return type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "shape", None) == ()


def _norm(v):
    if type(v).__module__ == "numpy" and hasattr(v, "item") and getattr(v, "shape", None) == ():
        return v.item()
    return v


def to_real(v):
    """-> z3 Real term"""
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    return realval(_norm(v))


def to_num(v):
    """-> (z3 term, is_int)"""
    if isinstance(v, SymReal):
        return v.t, False
    if isinstance(v, SymInt):
        return v.t, True
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), True
    v = _norm(v)
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v)), True
    return realval(v), False


def _pair(a, b):
    ta, ia = to_num(a)
    tb, ib = to_num(b)
    if ia and ib:
        return ta, tb, True
    if ia:
        ta = z3.ToReal(ta) if not z3.is_int_value(ta) else z3.RealVal(ta.as_long())
    if ib:
        tb = z3.ToReal(tb) if not z3.is_int_value(tb) else z3.RealVal(tb.as_long())
    return ta, tb, False


def mk(t):
    """wrap a z3 term; constants become python numbers"""
    if z3.is_bool(t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return t.as_long()
        return SymInt(t)
    return SymReal(t)


def to_bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, SymNum):
        return (v != 0).t
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.branch(self.t)

    def __and__(self, o):
        return mk(z3.And(self.t, to_bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk(z3.Or(self.t, to_bool_term(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mk(z3.Xor(self.t, to_bool_term(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mk(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk(self.t == to_bool_term(o))
        if isinstance(o, SymNum) or _isnum(o):
            return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __index__(self):
        return int(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, s):
        return str(bool(self))

    def __deepcopy__(self, memo):
        return self


def _unary_ok(o):
    return isinstance(o, (SymNum, SymBool)) or _isnum(o)


def _isinf(o):
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


class SymNum:
    __slots__ = ("t",)
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t

    # -- arithmetic
    def _bin(self, o, f, swap=False):
        if not _unary_ok(o):
            return NotImplemented
        a, b, i = _pair(self, o)
        if swap:
            a, b = b, a
        return mk(f(a, b))

    def __add__(self, o):
        if _isnum(o) and _norm(o) == 0 and (isinstance(self, SymReal) or isinstance(_norm(o), int)):
            return self
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if _isnum(o) and _norm(o) == 0 and (isinstance(self, SymReal) or isinstance(_norm(o), int)):
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _isnum(o):
            n = _norm(o)
            if n == 1 and (isinstance(self, SymReal) or isinstance(n, int)):
                return self
            if n == 0:
                return 0 if isinstance(n, int) and isinstance(self, SymInt) else 0.0
        elif isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, num, den):
        """num/den with python semantics"""
        if is_sym(den):
            tn, td = to_real(num), to_real(den)
            if ENGINE.branch(td == 0):
                raise ZeroDivisionError("float division by zero")
        else:
            d = _norm(den)
            if d == 0:
                raise ZeroDivisionError("float division by zero")
            if _isinf(d):
                return 0.0
            tn, td = to_real(num), realval(d)
        return SymReal(tn / td)

    def __truediv__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        if _isnum(o) and _norm(o) == 1:
            return self if isinstance(self, SymReal) else SymReal(z3.ToReal(self.t))
        return self._div(self, o)

    def __rtruediv__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        return self._div(o, self)

    def _floordiv(self, a, b):
        ta, tb, i = _pair(a, b)
        if ENGINE.branch(tb == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if i:
            if ENGINE.branch(tb > 0):
                return mk(ta / tb)
            return mk((-ta) / (-tb))
        return SymReal(z3.ToReal(z3.ToInt(ta / tb)))

    def __floordiv__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        return self._floordiv(self, o)

    def __rfloordiv__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        return self._floordiv(o, self)

    def __mod__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        q = self._floordiv(self, o)
        return self - q * o

    def __rmod__(self, o):
        if not _unary_ok(o):
            return NotImplemented
        q = self._floordiv(o, self)
        return o - q * self

    def __divmod__(self, o):
        q = self._floordiv(self, o)
        return q, self - q * o

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, e):
        return sym_pow(self, e)

    def __rpow__(self, b):
        return sym_pow(b, self)

    # -- comparison
    def _cmp(self, o, f, inf_pos, inf_neg):
        if not _unary_ok(o):
            return NotImplemented
        o = _norm(o)
        if isinstance(o, float) and o != o:
            return False
        if _isinf(o):
            return inf_pos if o > 0 else inf_neg
        a, b, _ = _pair(self, o)
        return mk(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        if not _unary_ok(o):
            return False
        o = _norm(o)
        if isinstance(o, float) and (o != o or _isinf(o)):
            return False
        a, b, _ = _pair(self, o)
        return mk(a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __bool__(self):
        return ENGINE.branch(self.t != 0)

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        return ENGINE.concretize(self)

    def __str__(self):
        return ENGINE.token(self)

    __repr__ = __str__

    def __format__(self, spec):
        return ENGINE.token(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        raise Unsupported("C-level float() of a symbolic value")

    def item(self):
        return self

    def sqrt(self):
        return sym_pow(self, 0.5)

    def log(self):
        return ENGINE.uf("log", self)

    def copy(self):
        return self


def _elementwise(name, f):
    def g(self, o, *rest):
        if type(o).__name__ == "ndarray" and type(o).__module__ == "numpy":
            import numpy as _np
            r = _np.empty(o.shape, dtype=object)
            for i in _np.ndindex(o.shape):
                v = o[i]
                r[i] = f(self, v.item() if hasattr(v, "item") else v)
            return r
        return f(self, o, *rest)
    g.__name__ = name
    return g


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod", "pow", "rpow", "lt", "le", "gt", "ge", "eq", "ne"):
    _k = f"__{_n}__"
    if _k in SymNum.__dict__:
        setattr(SymNum, _k, _elementwise(_k, SymNum.__dict__[_k]))


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return self.concretize()

    def __int__(self):
        return self.concretize()

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def is_integer(self):
        return True

    def __and__(self, o):
        return self.concretize() & o

    def __floor__(self):
        return self

    def __ceil__(self):
        return self


class SymReal(SymNum):
    __slots__ = ()

    def trunc(self):
        t = self.t
        return mk(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

    def __int__(self):
        r = self.trunc()
        return r if isinstance(r, int) else r.concretize()

    def __floor__(self):
        return mk(z3.ToInt(self.t))

    def __ceil__(self):
        return mk(-z3.ToInt(-self.t))

    def __trunc__(self):
        return self.trunc()

    def is_integer(self):
        return mk(z3.IsInt(self.t))

    def __round__(self, n=None):
        return ENGINE.round(self, n)


def sym_pow(b, e):
    e = _norm(e)
    b = _norm(b)
    if not is_sym(e):
        if e == 0:
            return 1 if isinstance(b, SymInt) and isinstance(e, int) else 1.0
        if e == 1:
            return b if (isinstance(e, int) or isinstance(b, SymReal)) else SymReal(to_real(b))
        if float(e).is_integer() and 1 < abs(e) <= 4:
            r = b
            for _ in range(int(abs(e)) - 1):
                r = r * b
            if e < 0:
                return 1.0 / r
            return r if isinstance(e, int) else SymReal(to_real(r))
        if e == -1:
            return 1.0 / b
        if e == 0.5:
            return ENGINE.sqrt(b)
        if e == -0.5:
            return 1.0 / ENGINE.sqrt(b)
    if not is_sym(b):
        if b == 1:
            return 1.0
    return ENGINE.pow_uf(b, e)


# ------------------------------------------------------------------------------------------------
# engine


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.infeasible = 0
        self.decisions = 0
        self.checks = 0
        self.trivial = 0
        self.unknown = 0
        self.replays = 0
        self.mismatch = 0
        self.undecided = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k, 0) + v)

    def d(self):
        return dict(self.__dict__)


class Entry:
    __slots__ = ("cond", "choice", "open", "kind", "value")

    def __init__(self, cond, choice, open_, kind):
        self.cond, self.choice, self.open, self.kind = cond, choice, open_, kind


SOLVER_TIMEOUT_MS = 20000


class CtxBase:
    """API available to harnesses in both modes."""

    symbolic = False

    def world(self, **kw):
        from . import loader
        return loader.World(self, **kw)

    # convenience
    def all(self, conds):
        r = True
        for c in conds:
            r = band(r, c)
        return r

    def any(self, conds):
        r = False
        for c in conds:
            r = bor(r, c)
        return r

    def rng_name(self, kind):
        n = self.rng_count
        self.rng_count += 1
        return f"{kind}#{n}"


def band(a, b, *more):
    if more:
        return band(band(a, b), *more)
    if isinstance(a, SymBool):
        return a & b
    if isinstance(b, SymBool):
        return b & a
    return bool(a) and bool(b)


def bor(a, b, *more):
    if more:
        return bor(bor(a, b), *more)
    if isinstance(a, SymBool):
        return a | b
    if isinstance(b, SymBool):
        return b | a
    return bool(a) or bool(b)


def bnot(a):
    if isinstance(a, SymBool):
        return ~a
    return not a


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return mk(to_bool_term(a) == to_bool_term(b))
    return bool(a) == bool(b)


def ite(c, a, b):
    """numeric if-then-else without forking"""
    if isinstance(c, SymBool):
        if _unary_ok(a) and _unary_ok(b):
            ta, tb, _ = _pair(a, b)
            return mk(z3.If(c.t, ta, tb))
        return a if bool(c) else b
    return a if c else b


def smax(a, b):
    if is_sym(a) or is_sym(b):
        return ite(a >= b, a, b)
    return a if a >= b else b


def smin(a, b):
    if is_sym(a) or is_sym(b):
        return ite(a <= b, a, b)
    return a if a <= b else b


class SymCtx(CtxBase):
    symbolic = True
    nlsat_first = False     # ask the nonlinear solver first (pure real arithmetic)

    def __init__(self, case, stats):
        self.case = case
        self.stats = stats
        self.solver = z3.Solver()
        self.solver.set("timeout", SOLVER_TIMEOUT_MS)
        self.trail = []
        self.violations = []      # list of dict(label,msg,key,model)
        self.undecided = []
        self.on_violation = None
        self.fns = set()
        self.seen_labels = {}
        self._vals = []
        self.model = None
        self.extra = {}

    # -- run management
    def start_path(self):
        global ENGINE
        ENGINE = self
        self.pos = 0
        self.vars = {}            # name -> z3 var  (inputs, for models)
        self.kinds = {}
        self.tokens = {}
        self.token_of = {}
        self.rng_count = 0
        self.fresh_count = 0
        self.draws = []
        self.obs = []
        self.sqrt_memo = {}
        self.uf_apps = []

    def _check(self, *assumptions):
        self.stats.queries += 1
        t0 = time.time()
        if self.nlsat_first:
            try:
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", 5000)
                s.add(self.solver.assertions())
                s.add(*assumptions)
                r = s.check()
                if r != z3.unknown:
                    self.stats.solver_time += time.time() - t0
                    self._last_model = s.model() if r == z3.sat else None
                    return r
            except z3.Z3Exception:
                pass
        r = self.solver.check(*assumptions)
        if r == z3.unknown:
            r2 = self._nlsat(assumptions)
            if r2 is not None:
                self.stats.solver_time += time.time() - t0
                return r2
        self.stats.solver_time += time.time() - t0
        self._last_model = self.solver.model() if r == z3.sat else None
        return r

    def _nlsat(self, assumptions):
        try:
            for mkS in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.SolverFor("QF_UFNIRA") if False else z3.SimpleSolver()):
                s = mkS()
                s.set("timeout", SOLVER_TIMEOUT_MS)
                s.add(self.solver.assertions())
                s.add(*assumptions)
                r = s.check()
                if r == z3.sat:
                    self._last_model = s.model()
                    return r
                if r == z3.unsat:
                    self._last_model = None
                    return r
        except z3.Z3Exception:
            pass
        self.stats.unknown += 1
        return None

    def next_path(self):
        """backtrack; returns False when the tree is exhausted"""
        while self.trail:
            e = self.trail[-1]
            self.solver.pop()
            if e.kind == "branch" and e.open:
                e.open = False
                e.choice = not e.choice
                c = e.cond if e.choice else z3.Not(e.cond)
                self.solver.push()
                self.solver.add(c)
                r = self._check()
                if r == z3.unsat:
                    self.solver.pop()
                    self.trail.pop()
                    continue
                self._set_model(r)
                return True
            self.trail.pop()
        return False

    def _set_model(self, r):
        self.extra = {}
        self.model = self._last_model if r == z3.sat else None

    def _eval(self, c):
        """truth of c under the current model, or None"""
        if self.model is None:
            return None
        if self.extra:
            c = z3.substitute(c, *self.extra.values())
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _push(self, cond, choice, open_, kind, add):
        self.solver.push()
        if add is not None:
            self.solver.add(add)
        self.trail.append(Entry(cond, choice, open_, kind))
        self.pos += 1

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if not (e.kind == "branch" and e.cond.eq(c)):
                raise Unsupported("non-deterministic re-execution at decision %d: %s vs %s" % (self.pos, e.cond, c))
            self.pos += 1
            return e.choice
        self.stats.decisions += 1
        if len(self.trail) > 4000:
            raise PathTimeout("too many decisions")
        v = self._eval(c)
        if v is None:
            r = self._check(c)
            if r == z3.unsat:
                self._push(c, False, False, "branch", z3.Not(c))
                return False
            if r == z3.sat:
                self._set_model(r)
                v = True
            else:
                v = True  # unknown: explore both sides
                self.model = None
        self._push(c, v, True, "branch", c if v else z3.Not(c))
        return v

    def assume(self, cond):
        c = z3.simplify(to_bool_term(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if not (e.kind == "assume" and e.cond.eq(c)):
                raise Unsupported("non-deterministic re-execution (assume)")
            self.pos += 1
            if e.choice is False:
                raise PathAbort()
            return
        v = self._eval(c)
        self._push(c, True, False, "assume", c)
        if v is not True:
            r = self._check()
            if r == z3.unsat:
                self.trail[-1].choice = False
                raise PathAbort()
            self._set_model(r)

    # -- inputs
    def _var(self, name, sort):
        v = z3.Real(name) if sort == "real" else z3.Int(name) if sort == "int" else z3.Bool(name)
        self.vars[name] = v
        self.kinds[name] = sort
        return v

    def _bounded(self, v, lo, hi, lo_open, hi_open, witness):
        conds = []
        if lo is not None:
            conds.append(v > lo if lo_open else v >= lo)
        if hi is not None:
            conds.append(v < hi if hi_open else v <= hi)
        if not conds:
            return
        c = z3.simplify(z3.And(*conds))
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if not (e.kind == "assume" and e.cond.eq(c)):
                raise Unsupported("non-deterministic re-execution (input)")
            self.pos += 1
            return
        self._push(c, True, False, "assume", c)
        if self.model is not None and str(v) not in self.extra:
            dv = self.model.eval(v, model_completion=False)
            if dv.eq(v):  # unconstrained so far: choose a value ourselves
                self.extra[str(v)] = (v, witness)
                return
            if self._eval(c) is True:
                return
        r = self._check()
        if r == z3.unsat:
            raise PathAbort()
        self._set_model(r)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._var(name, "real")
        l = None if lo is None else realval(lo)
        h = None if hi is None else realval(hi)
        if lo is not None and hi is not None:
            w = realval((frac(lo) + frac(hi)) / 2)
        elif lo is not None:
            w = realval(frac(lo) + 1)
        elif hi is not None:
            w = realval(frac(hi) - 1)
        else:
            w = realval(0)
        self._bounded(v, l, h, lo_open, hi_open, w)
        return SymReal(v)

    def int(self, name, lo=None, hi=None):
        v = self._var(name, "int")
        if lo is not None and hi is not None and lo == hi:
            return lo
        w = z3.IntVal(lo if lo is not None else hi if hi is not None else 0)
        self._bounded(v, lo, hi, False, False, w)
        return SymInt(v)

    def bool(self, name):
        return SymBool(self._var(name, "bool"))

    def flag(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[i.concretize()]

    def concretize(self, v):
        t = v.t
        for _ in range(10000):
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                if e.kind != "branch" or not z3.is_eq(e.cond):
                    # conditions recorded here are always t == value
                    raise Unsupported("non-deterministic re-execution (concretize)")
                val = e.cond
                self.pos += 1
                if e.choice:
                    return self._num(e.value)
                continue
            val = None
            if self.model is not None:
                tt = z3.substitute(t, *self.extra.values()) if self.extra else t
                val = z3.simplify(self.model.eval(tt, model_completion=True))
                if not (z3.is_int_value(val) or z3.is_rational_value(val)):
                    val = None
            if val is None:
                r = self._check()
                if r != z3.sat:
                    raise Unsupported("cannot concretize")
                self._set_model(r)
                val = z3.simplify(self.model.eval(t, model_completion=True))
                if not (z3.is_int_value(val) or z3.is_rational_value(val)):
                    raise Unsupported("cannot concretize (algebraic)")
            st = z3.simplify(t)
            if z3.is_int_value(st) or z3.is_rational_value(st):
                return self._num(st)
            c = (t == val)
            self.stats.decisions += 1
            self._push(c, True, True, "branch", c)
            self.trail[-1].value = val
            return self._num(val)
        raise Unsupported("concretize loop")

    @staticmethod
    def _num(v):
        if z3.is_int_value(v):
            return v.as_long()
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return int(f) if f.denominator == 1 else float(f)

    # -- special functions
    def fresh(self, sort, hint):
        n = f"{hint}!{self.fresh_count}"
        self.fresh_count += 1
        return z3.Real(n) if sort == "real" else z3.Int(n)

    def define(self, c):
        """add a definitional constraint about fresh variables (always satisfiable)"""
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "assume" or not e.cond.eq(c):
                raise Unsupported("non-deterministic re-execution (define)")
            self.pos += 1
            return
        self._push(c, True, False, "assume", c)
        r = self._check()
        if r == z3.unsat:
            raise PathAbort()
        self._set_model(r)

    def sqrt(self, b):
        t = z3.simplify(to_real(b))
        if self.branch(t < 0):
            raise ValueError("math domain error")
        k = t.get_id()
        if k in self.sqrt_memo:
            return SymReal(self.sqrt_memo[k][1])
        s = self.fresh("real", "sqrt")
        self.define(z3.And(s >= 0, s * s == t))
        self.sqrt_memo[k] = (t, s)
        return SymReal(s)

    def round(self, x, n):
        scale = 10 ** (n or 0)
        k = self.fresh("int", "round")
        y = x.t * scale
        kr = z3.ToReal(k)
        self.define(z3.And(kr - y <= z3.Q(1, 2), y - kr <= z3.Q(1, 2),
                           z3.Implies(z3.Or(kr - y == z3.Q(1, 2), y - kr == z3.Q(1, 2)), k % 2 == 0)))
        if n is None:
            return SymInt(k)
        return SymReal(kr / scale)

    def uf(self, name, *args):
        f = z3.Function("uf_" + name, *([z3.RealSort()] * len(args)), z3.RealSort())
        return SymReal(f(*[to_real(a) for a in args]))

    def pow_uf(self, b, e):
        tb, te = to_real(b), to_real(e)
        f = z3.Function("uf_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        if self.branch(z3.And(tb == 0, te < 0)):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        if self.branch(tb < 0):
            raise Unsupported("power of a negative base")
        r = f(tb, te)
        ax = z3.And(z3.Implies(te == 0, r == 1), z3.Implies(te == 1, r == tb),
                    z3.Implies(tb > 0, r > 0), z3.Implies(z3.And(tb == 0, te > 0), r == 0),
                    z3.Implies(tb == 1, r == 1))
        self.define(ax)
        return SymReal(r)

    # -- text tokens
    def token(self, v):
        t = v.t
        k = (t.get_id(), z3.is_int(t))
        tok = self.token_of.get(k)
        if tok is None:
            tok = f"sx{len(self.tokens)}{'i' if z3.is_int(t) else 'r'}q"
            self.tokens[tok] = v
            self.token_of[k] = tok
        return tok

    # -- assertions
    def check(self, cond, label, msg="", key=None):
        self.stats.checks += 1
        if not isinstance(cond, SymBool) and not z3.is_expr(cond):
            if cond:
                self.stats.trivial += 1
                return
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                self._set_model(r)
            self._violated(label, msg, key, None)
            return
        c = z3.simplify(to_bool_term(cond))
        if z3.is_true(c):
            self.stats.trivial += 1
            return
        nc = z3.Not(c)
        if self._eval(c) is False:
            self._violated(label, msg, key, nc)
            return
        self.solver.push()
        self.solver.add(nc)
        r = self._check()
        m = self._last_model
        self.solver.pop()
        if r == z3.unsat:
            return
        if r == z3.sat:
            self._violated(label, msg, key, nc, m)
            return
        self.stats.undecided += 1
        self.undecided.append(f"solver unknown: {label} {msg}")

    def check_eq(self, a, b, label, msg="", key=None):
        """numeric equality up to 1e-9 relative (exact equality is tried first)"""
        if not is_sym(a) and not is_sym(b):
            self.check(num_close(a, b), label, msg or f"{a} != {b}", key)
            return
        self.stats.checks += 1
        a, b = _norm(a), _norm(b)
        if not _unary_ok(a) or not _unary_ok(b):
            self.check(False, label, msg, key)
            return
        ta, tb, _ = _pair(a, b)
        if ta.eq(tb):
            self.stats.trivial += 1
            return
        c = z3.simplify(ta == tb)
        if z3.is_true(c):
            self.stats.trivial += 1
            return
        if rational_identity(ta, tb):
            self.stats.queries += 1
            return
        nc = z3.Not(c)
        self.solver.push()
        self.solver.add(nc)
        r = self._check()
        m = self._last_model
        self.solver.pop()
        if r == z3.unsat:
            return
        ta, tb = to_real(a), to_real(b)
        d = ta - tb
        tol = z3.RealVal("1/1000000")
        far = z3.And(z3.Or(d > tol, -d > tol), z3.Or(d > tol * tb, -d > tol * tb), z3.Or(d > -tol * tb, -d > -tol * tb))
        self.solver.push()
        self.solver.add(far)
        r = self._check()
        m = self._last_model
        self.solver.pop()
        if r == z3.unsat:
            return
        if r == z3.sat:
            self._violated(label, msg or "values differ", key, far, m)
            return
        self.stats.undecided += 1
        self.undecided.append(f"solver unknown: {label} {msg}")

    def _violated(self, label, msg, key, nc, model=None):
        k = (label, key)
        n = self.seen_labels.get(k, 0)
        self.seen_labels[k] = n + 1
        if n >= 6:
            return
        vals = self.model_values(model)
        v = dict(label=label, msg=msg, key=key, model=vals)
        if self.on_violation:
            if self.on_violation(v):
                return
            # not reproduced: look for a model whose reals are dyadic, and for one away from boundaries
            for mode in ("dyadic", "box"):
                alt = self._nice_model(nc, mode)
                if alt is not None:
                    v2 = dict(v, model=alt)
                    if self.on_violation(v2):
                        return
        self.violations.append(v)

    def _nice_model(self, nc, mode):
        self.solver.push()
        try:
            if nc is not None:
                self.solver.add(nc)
            for n, v in self.vars.items():
                if self.kinds[n] == "real":
                    k = z3.Int("dy!" + n)
                    self.solver.add(v * (64 if mode == "dyadic" else 4) == z3.ToReal(k))
                    if mode == "box":
                        self.solver.add(v <= 4096, v >= -4096)
            self.solver.set("timeout", 4000)
            r = self._check()
            if r == z3.sat:
                return self.model_values(self._last_model)
            return None
        finally:
            self.solver.set("timeout", SOLVER_TIMEOUT_MS)
            self.solver.pop()

    def model_values(self, model=None):
        m = model if model is not None else self.model
        out = {}
        for n, v in self.vars.items():
            if m is None:
                continue
            if model is None and n in self.extra:
                val = self.extra[n][1]
            else:
                val = m.eval(v, model_completion=False)
                if val.eq(v):
                    val = self.extra[n][1] if n in self.extra else m.eval(v, model_completion=True)
            out[n] = value_of(val)
        return out

    def observe(self, name, value):
        self.obs.append((name, value))

    def eval_obs(self, value):
        if isinstance(value, SymBool):
            return self._eval(value.t)
        if isinstance(value, SymNum):
            if self.model is None:
                return None
            t = z3.substitute(value.t, *self.extra.values()) if self.extra else value.t
            return value_of(z3.simplify(self.model.eval(t, model_completion=True)))
        return value


def value_of(val):
    val = z3.simplify(val)
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        n, d = val.numerator_as_long(), val.denominator_as_long()
        return [n, d]
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return [a.numerator_as_long(), a.denominator_as_long()]
    return None


def num_close(a, b, tol=1e-6):
    a, b = _norm(a), _norm(b)
    if a is None or b is None or not _isnum(a) or not _isnum(b):
        return a is b
    if a != a or b != b:
        return False
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(b))
    except OverflowError:
        return False


# -- rational-function identity test (complete for polynomial identities, no solver needed)

def _ratfun(t, memo):
    k = t.get_id()
    r = memo.get(k)
    if r is not None:
        return r
    one = z3.RealVal(1)
    if z3.is_add(t):
        n, d = _ratfun(t.arg(0), memo)
        for i in range(1, t.num_args()):
            n2, d2 = _ratfun(t.arg(i), memo)
            if d.eq(d2):
                n = n + n2
            else:
                n, d = n * d2 + n2 * d, d * d2
    elif z3.is_sub(t):
        n, d = _ratfun(t.arg(0), memo)
        for i in range(1, t.num_args()):
            n2, d2 = _ratfun(t.arg(i), memo)
            if d.eq(d2):
                n = n - n2
            else:
                n, d = n * d2 - n2 * d, d * d2
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        n, d = _ratfun(t.arg(0), memo)
        n = -n
    elif z3.is_mul(t):
        n, d = _ratfun(t.arg(0), memo)
        for i in range(1, t.num_args()):
            n2, d2 = _ratfun(t.arg(i), memo)
            n, d = n * n2, d * d2
    elif z3.is_div(t):
        n1, d1 = _ratfun(t.arg(0), memo)
        n2, d2 = _ratfun(t.arg(1), memo)
        n, d = n1 * d2, d1 * n2
    else:
        n, d = t, one
    memo[k] = (n, d)
    return n, d


def rational_identity(ta, tb):
    """a == b as rational functions (every division was guarded as non-zero on the path)"""
    try:
        memo = {}
        if z3.is_int(ta):
            ta = z3.ToReal(ta)
        if z3.is_int(tb):
            tb = z3.ToReal(tb)
        n1, d1 = _ratfun(ta, memo)
        n2, d2 = _ratfun(tb, memo)
        e = z3.simplify(n1 * d2 - n2 * d1, som=True, som_blowup=2000)
        return z3.is_rational_value(e) and e.numerator_as_long() == 0
    except z3.Z3Exception:
        return False


class ConcCtx(CtxBase):
    """Replay of one model on the real code."""

    symbolic = False

    def __init__(self, case, model):
        self.case = case
        self.values = model
        self.rng_count = 0
        self.draws = []
        self.obs = []
        self.failed = []
        self.stop_at_failure = False

    def _v(self, name, default):
        v = self.values.get(name)
        if v is None:
            return default
        if isinstance(v, (list, tuple)):
            return v[0] / v[1]
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = 0.0
        if lo is not None and hi is not None:
            d = (float(lo) + float(hi)) / 2
        elif lo is not None:
            d = float(lo) + 1
        elif hi is not None:
            d = float(hi) - 1
        v = float(self._v(name, d))
        if hi is not None and hi_open and v >= hi:
            v = d
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._v(name, lo if lo is not None else hi if hi is not None else 0))

    def bool(self, name):
        return bool(self._v(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = int(self._v(name, 0))
        return options[i if 0 <= i < len(options) else 0]

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, msg="", key=None):
        if not cond:
            self.failed.append(dict(label=label, msg=msg, key=key))

    def check_eq(self, a, b, label, msg="", key=None):
        if not num_close(a, b):
            self.failed.append(dict(label=label, msg=f"{msg} got {a!r}, expected {b!r}", key=key))

    def observe(self, name, value):
        self.obs.append((name, _norm(value)))
