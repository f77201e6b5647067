"""pandas for the code under test: symbolic runs get a small data frame that can hold symbolic cells, replays get the real pandas.
In both, the row drawn by DataFrame.sample is the explorer's choice and is recorded in ctx.draws."""
from __future__ import annotations

import csv
import types

from . import core
from .shims import NpRandom


def _cell(ctx, s):
    v = ctx.tokens.get(s.strip())
    if v is not None:
        return v
    for f in (int, float):
        try:
            return f(s)
        except ValueError:
            pass
    return float("nan") if s == "" else s


class Series:
    def __init__(self, vals, index):
        self._v, self.index = list(vals), list(index)

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, k):
        if k in self.index:
            return self._v[self.index.index(k)]
        if isinstance(k, int):
            return self._v[k]
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self.index else d

    @property
    def iloc(self):
        return self._v

    @property
    def values(self):
        return self._v

    def tolist(self):
        return list(self._v)

    to_list = tolist

    def sum(self):
        t = 0
        for v in self._v:
            t = t + v
        return t

    def max(self):
        return core.smax(*self._v)

    def min(self):
        return core.smin(*self._v)

    def __truediv__(self, x):
        return Series([v / x for v in self._v], self.index)

    def __mul__(self, x):
        return Series([v * x for v in self._v], self.index)


class Columns(list):
    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def values(self):
        return list(self)


class _ILoc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.df.rows[k[0]][k[1]]
        if isinstance(k, slice):
            return Frame(self.df.ctx, self.df.columns, self.df.rows[k], self.df.index[k])
        return Series(self.df.rows[k], self.df.columns)


class _Loc:
    def __init__(self, df):
        self.df = df

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.df.rows[self.df.index.index(k[0])][self.df.columns.index(k[1])]
        return Series(self.df.rows[self.df.index.index(k)], self.df.columns)


class Frame:
    def __init__(self, ctx, columns, rows, index=None):
        self.ctx, self.columns, self.rows = ctx, Columns(columns), [list(r) for r in rows]
        self.index = list(range(len(rows))) if index is None else list(index)

    def __len__(self):
        return len(self.rows)

    @property
    def shape(self):
        return len(self.rows), len(self.columns)

    @property
    def empty(self):
        return not self.rows

    def __contains__(self, c):
        return c in self.columns

    def __iter__(self):
        return iter(self.columns)

    def __getitem__(self, c):
        j = list.index(self.columns, c) if c in self.columns else None
        if j is None:
            raise KeyError(c)
        return Series([r[j] for r in self.rows], self.index)

    def get(self, c, d=None):
        return self[c] if c in self.columns else d

    @property
    def iloc(self):
        return _ILoc(self)

    iat = iloc

    @property
    def loc(self):
        return _Loc(self)

    at = loc

    def iterrows(self):
        for i, r in zip(self.index, self.rows):
            yield i, Series(r, self.columns)

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(zip(self.columns, r)) for r in self.rows]
        return {c: {i: r[j] for i, r in zip(self.index, self.rows)} for j, c in enumerate(self.columns)}

    def sample(self, n=None, frac=None, replace=False, weights=None, random_state=None, axis=None, ignore_index=False):
        if isinstance(weights, str):
            if weights not in self.columns:
                raise KeyError("String passed to weights not a valid column")
            weights = self[weights]
        idx = draw_rows(self.ctx, True, len(self.rows), 1 if n is None else n, replace, None if weights is None else list(weights))
        return Frame(self.ctx, self.columns, [self.rows[i] for i in idx], [self.index[i] for i in idx])


def draw_rows(ctx, sym, n, k, replace, weights):
    if k != 1:
        raise core.Unsupported("sampling several rows")
    if weights is not None:
        weights = [0 if isinstance(x, float) and x != x else x for x in weights]
        for x in weights:
            if x < 0:
                raise ValueError("weight vector many not include negative values")
        tot = 0
        for x in weights:
            tot = tot + x
        if tot == 0:
            raise ValueError("Invalid weights: weights sum to zero")
    from .shims import _pick_index
    if n == 0:
        raise ValueError("a must be greater than 0 unless no samples are taken")
    i = _pick_index(ctx, weights if weights is not None else [1.0] * n)
    ctx.draws.append(dict(rank=getattr(ctx, "current_rank", None), kind="sample", options=list(range(n)), weights=weights, result=[i], k=1))
    return [i]


def pandas_for(ctx):
    m = types.ModuleType("pandas")
    if ctx.symbolic:
        def read_csv(name, *a, **kw):
            with open(name, encoding="utf-8", newline="") as f:
                rows = [r for r in csv.reader(f) if r]
            return Frame(ctx, rows[0], [[_cell(ctx, c) for c in r] for r in rows[1:]])

        m.read_csv = read_csv
        m.DataFrame = Frame
        return m
    import pandas as pd

    class Sampled(pd.DataFrame):
        @property
        def _constructor(self):
            return Sampled

        def sample(self, n=None, frac=None, replace=False, weights=None, random_state=None, axis=None, ignore_index=False):
            if isinstance(weights, str):
                weights = self[weights]
            idx = draw_rows(ctx, False, len(self), 1 if n is None else n, replace, None if weights is None else [float(x) for x in weights])
            return self.take(idx)

    m.__dict__.update({k: v for k, v in pd.__dict__.items() if not k.startswith("__")})
    m.read_csv = lambda *a, **k: Sampled(pd.read_csv(*a, **k))
    m.DataFrame = Sampled
    return m
