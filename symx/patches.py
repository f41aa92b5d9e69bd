"""Environment of the symbolic execution: numpy / pandas / statistics / math as the code sees them.

The project's modules are executed from /repo's current source, unchanged, with real numpy and pandas on
object-dtype arrays that hold symbolic values.  Only entry points that would force a machine float are
replaced, and each replacement defers to the original unless a symbolic value is involved:

  * numpy (seen through a proxy module): array creation of float dtype yields object dtype; isnan & co,
    sqrt, float casts, nan-reductions, isclose, linalg.norm and the random generator constructors;
  * statistics.stdev & co and math.sqrt & co: same formulas over symbolic values;
  * pandas: "is this column numeric", object reductions (mean/std/...), float casts.

Randomness is a nondeterministic stub (see rng.py).
"""
import builtins
import importlib.abc
import importlib.util
import math
import os
import statistics
import sys
import types

import numpy as real_np
import pandas as pd

from .sym import Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool)) for e in x.flat)
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == object and any(isinstance(e, (Sym, SymBool)) for e in x.values)
    if isinstance(x, pd.DataFrame):
        return any(has_sym(x.iloc[:, i]) for i in range(x.shape[1]))
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


class SymArr(real_np.ndarray):
    """object ndarray whose ufuncs know symbolic values and plain floats alike"""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = tuple(i.view(real_np.ndarray) if isinstance(i, SymArr) else i for i in inputs)
        f = _UFUNCS.get(ufunc.__name__)
        if f is not None and method == "__call__" and len(inputs) == 1:
            r = f(ins[0])
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return _wrap(r)
        if out is not None:
            kw["out"] = tuple(o.view(real_np.ndarray) if isinstance(o, SymArr) else o for o in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if out is not None and len(out) == 1 and out[0] is not None:
            return out[0]
        return _wrap(r)

    def astype(self, dtype, *a, **k):
        if self.dtype == object and _is_float_dtype(dtype) and has_sym(self):
            return self.copy()
        return _wrap(self.view(real_np.ndarray).astype(_plain(dtype), *a, **k))


def _wrap(r):
    if isinstance(r, real_np.ndarray) and r.dtype == object and r.ndim > 0 and not isinstance(r, SymArr):
        return r.view(SymArr)
    return r


def _is_float_dtype(d):
    try:
        return real_np.dtype(_plain(d)).kind == "f"
    except TypeError:
        return False


def _elementwise(fsym, fnum, outbool=False):
    def g(x):
        if isinstance(x, Sym):
            return fsym(x)
        if isinstance(x, (pd.Series, pd.DataFrame)):
            if not has_sym(x):
                return fnum(x)
            if isinstance(x, pd.Series):
                return pd.Series(g(x.values), index=x.index, name=x.name)
            return pd.DataFrame(g(x.values), index=x.index, columns=x.columns)
        a = real_np.asarray(x, dtype=object) if has_sym(x) else real_np.asarray(x)
        if a.dtype != object:
            return fnum(x)
        if a.ndim == 0:
            e = a.item()
            return fsym(e) if isinstance(e, Sym) else fnum(float(e) if e is not None else float("nan"))
        o = real_np.empty(a.shape, dtype=object)
        for i, e in enumerate(a.flat):
            o.flat[i] = fsym(e) if isinstance(e, Sym) else fnum(float(e))
        return o.astype(bool) if outbool else o.view(SymArr)
    return g


_isnan = _elementwise(lambda e: False, real_np.isnan, True)
_isfinite = _elementwise(lambda e: True, real_np.isfinite, True)
_isinf = _elementwise(lambda e: False, real_np.isinf, True)
_sqrt = _elementwise(lambda e: e.sqrt(), real_np.sqrt)
_absolute = _elementwise(lambda e: abs(e), real_np.abs)
_UFUNCS = {"isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf, "sqrt": _sqrt, "absolute": _absolute,
           "fabs": _absolute}


def _creator(name):
    real = getattr(real_np, name)

    def f(*a, **k):
        r = real(*a, **k)
        if r.dtype.kind == "f":
            r = r.astype(object).view(SymArr)
        return r
    return f


def _full(shape, fill_value, dtype=None, **k):
    if dtype is None and has_sym(fill_value) or dtype is not None and _is_float_dtype(dtype) and has_sym(fill_value):
        r = real_np.empty(shape, dtype=object)
        r[...] = fill_value
        return r.view(SymArr)
    r = real_np.full(shape, fill_value, dtype, **k)
    if r.dtype.kind == "f":
        r = r.astype(object).view(SymArr)
    return r


def _like(name):
    real = getattr(real_np, name)

    def f(a, *args, **k):
        b = real_np.asarray(a)
        dt = k.get("dtype")
        if b.dtype == object and dt is None or _is_float_dtype(dt) if dt is not None else b.dtype.kind == "f":
            k["dtype"] = object
            r = real(b, *args, **k)
            if name == "zeros_like":
                r[...] = 0.0
            if name == "ones_like":
                r[...] = 1.0
            return r.view(SymArr)
        return real(a, *args, **k)
    return f


def _array(name):
    real = getattr(real_np, name)

    def f(x, dtype=None, *a, **k):
        if dtype is not None and _is_float_dtype(dtype) and has_sym(x):
            dtype = object
        r = real(x, dtype, *a, **k) if dtype is not None else real(x, *a, **k)
        return _wrap(r) if isinstance(r, real_np.ndarray) and has_sym(r) else r
    return f


def _fromiter(it, dtype=None, count=-1, **k):
    l = list(it)
    if has_sym(l):
        r = real_np.empty(len(l), dtype=object)
        r[:] = l
        return r.view(SymArr)
    return real_np.fromiter(l, dtype, count, **k)


def _nan_reduce(name, plain):
    real = getattr(real_np, name)

    def f(a, axis=None, **k):
        if not (has_sym(a)):
            return real(a, axis=axis, **k)
        a = real_np.asarray(a, dtype=object)
        if axis is None:
            v = real_np.array([e for e in a.flat if isinstance(e, Sym) or e is not None and e == e], dtype=object)
            return plain(v.view(SymArr), **k) if len(v) else (0.0 if name == "nansum" else float("nan"))
        return real_np.apply_along_axis(lambda r: f(r, **k), axis, a)
    return f


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return real_np.isclose(a, b, rtol, atol, equal_nan)
    A, B = real_np.broadcast_arrays(real_np.asarray(a, dtype=object), real_np.asarray(b, dtype=object))
    o = real_np.empty(A.shape, dtype=bool)
    for i in range(A.size):
        x, y = A.flat[i], B.flat[i]
        d = x - y
        o.flat[i] = bool(d <= atol + rtol * abs(y)) and bool(-d <= atol + rtol * abs(y))
    return o if o.ndim else bool(o)


def _norm(x, ord=None, axis=None, **k):
    if not has_sym(x):
        return real_np.linalg.norm(x, ord, axis, **k)
    if ord not in (None, 2, "fro") or axis is not None:
        raise Unsupported("norm")
    t = 0
    for e in real_np.asarray(x, dtype=object).flat:
        t = t + e * e
    return t.sqrt()


def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if not has_sym(a):
        return real_np.var(a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    a = real_np.asarray(a, dtype=object)
    if axis is None:
        v = list(a.flat)
        m = sum(v) / len(v)
        if len(v) - ddof <= 0:
            return float("nan")
        return sum(((e - m) * (e - m) for e in v), 0) / (len(v) - ddof)
    r = real_np.apply_along_axis(lambda row: _var(row.view(SymArr), ddof=ddof), axis, a)
    return real_np.expand_dims(r, axis) if keepdims else _wrap(r)


def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if not has_sym(a):
        return real_np.std(a, axis=axis, ddof=ddof, keepdims=keepdims, **k)
    return _sqrt(_var(a, axis, None, None, ddof, keepdims))


def _ptp(a, axis=None, **k):
    if not has_sym(a):
        return real_np.ptp(a, axis=axis, **k)
    return real_np.max(a, axis=axis) - real_np.min(a, axis=axis)


class _Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_over", over)

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)

    def __dir__(self):
        return dir(self._real)


# ---------------------------------------------------------------- statistics / math
def _st(name, ddof, root):
    real = getattr(statistics, name)

    def f(data, mu=None):
        v = list(data)
        if not has_sym(v):
            return real(v, mu)
        if len(v) < 1 + ddof:
            raise statistics.StatisticsError("%s requires at least %d data points" % (name, 1 + ddof))
        m = sum(v) / len(v) if mu is None else mu
        t = sum(((e - m) * (e - m) for e in v), 0) / (len(v) - ddof)
        return t.sqrt() if root else t
    return f


def _st_mean(name):
    real = getattr(statistics, name)

    def f(data, *a, **k):
        v = list(data)
        if not has_sym(v):
            return real(v, *a, **k)
        return sum(v) / len(v)
    return f


stat_proxy = _Proxy(statistics, {
    "stdev": _st("stdev", 1, True), "pstdev": _st("pstdev", 0, True), "variance": _st("variance", 1, False),
    "pvariance": _st("pvariance", 0, False), "mean": _st_mean("mean"), "fmean": _st_mean("fmean")})
math_proxy = _Proxy(math, {
    "sqrt": lambda x: x.sqrt() if isinstance(x, Sym) else math.sqrt(x),
    "isnan": lambda x: False if isinstance(x, Sym) else math.isnan(x),
    "isinf": lambda x: False if isinstance(x, Sym) else math.isinf(x),
    "isfinite": lambda x: True if isinstance(x, Sym) else math.isfinite(x),
    "fabs": lambda x: abs(x) if isinstance(x, Sym) else math.fabs(x),
    "pow": lambda x, y: x ** y if isinstance(x, Sym) else math.pow(x, y),
    "fsum": lambda xs: (lambda l: sum(l) if has_sym(l) else math.fsum(l))(list(xs))})


def make_np_proxy(rng_over):
    over = {n: _creator(n) for n in ("zeros", "ones", "empty")}
    over["full"] = _full
    for n in ("zeros_like", "ones_like", "empty_like"):
        over[n] = _like(n)
    for n in ("array", "asarray", "asanyarray", "ascontiguousarray"):
        over[n] = _array(n)
    over["fromiter"] = _fromiter
    over.update(isnan=_isnan, isfinite=_isfinite, isinf=_isinf, sqrt=_sqrt, abs=_absolute, absolute=_absolute,
                fabs=_absolute, isclose=_isclose, var=_var, std=_std, ptp=_ptp,
                allclose=lambda a, b, *r, **k: bool(real_np.all(_isclose(a, b, *r, **k))))
    over["nanmean"] = _nan_reduce("nanmean", real_np.mean)
    over["nansum"] = _nan_reduce("nansum", real_np.sum)
    over["nanmax"] = _nan_reduce("nanmax", real_np.max)
    over["nanmin"] = _nan_reduce("nanmin", real_np.min)
    over["nanstd"] = _nan_reduce("nanstd", _std)
    over["nanvar"] = _nan_reduce("nanvar", _var)
    over["bincount"] = _bincount
    over["nan_to_num"] = _nan_to_num
    over["linalg"] = _Proxy(real_np.linalg, {"norm": _norm})
    over["random"] = _Proxy(real_np.random, rng_over)
    return _Proxy(real_np, over)


# ---------------------------------------------------------------- pandas
def patch_pandas():
    from pandas.core import nanops
    orig = nanops._ensure_numeric

    def ensure(x):
        if has_sym(x):
            return x
        return orig(x)
    nanops._ensure_numeric = ensure

    def wrap_red(name, fn):
        o = getattr(nanops, name)

        def f(values, *a, **k):
            if isinstance(values, real_np.ndarray) and has_sym(values):
                ax = k.get("axis", None)
                return fn(values, ax, k)
            return o(values, *a, **k)
        f.__name__ = name
        setattr(nanops, name, f)

    def col(values):
        return [e for e in values if isinstance(e, Sym) or e is not None and e == e]

    def red(fn):
        def g(values, axis, k):
            if values.ndim == 1 or axis is None:
                return fn(col(list(values.flat)), k)
            return real_np.array([fn(col(list(r)), k) for r in (values.T if axis == 0 else values)], dtype=object)
        return g

    def mean(v, k):
        return sum(v) / len(v) if v else float("nan")

    def var(v, k):
        d = k.get("ddof", 1)
        if len(v) - d <= 0:
            return float("nan")
        m = sum(v) / len(v)
        return sum(((e - m) * (e - m) for e in v), 0) / (len(v) - d)
    wrap_red("nanmean", red(mean))
    wrap_red("nansum", red(lambda v, k: sum(v)))
    wrap_red("nanvar", red(var))
    wrap_red("nanstd", red(lambda v, k: _sqrt(var(v, k))))
    wrap_red("nanmax", red(lambda v, k: max(v) if v else float("nan")))
    wrap_red("nanmin", red(lambda v, k: min(v) if v else float("nan")))

    def arg(better):
        def g(values, axis, k):
            best = -1
            for i, e in enumerate(values):
                if (isinstance(e, Sym) or e is not None and e == e) and (best < 0 or bool(better(e, values[best]))):
                    best = i
            return best
        return g
    wrap_red("nanargmax", arg(lambda x, y: x > y))
    wrap_red("nanargmin", arg(lambda x, y: x < y))

    o_num = pd.DataFrame._get_numeric_data

    def numcols(df):
        return [i for i in range(df.shape[1])
                if df.dtypes.iloc[i].kind in "biufc" or has_sym(df.iloc[:, i])] if df.shape[1] else []

    def _get_numeric_data(self):
        if has_sym(self):
            return self.iloc[:, numcols(self)]
        return o_num(self)
    pd.DataFrame._get_numeric_data = _get_numeric_data

    o_sel = pd.DataFrame.select_dtypes

    def select_dtypes(self, include=None, exclude=None):
        if has_sym(self):
            def norm(x):
                if x is None:
                    return []
                return list(x) if isinstance(x, (list, tuple, set, frozenset)) else [x]
            num = {"number", "float", "float64", real_np.number, float, real_np.float64, real_np.floating}
            keep = []
            for i in range(self.shape[1]):
                if has_sym(self.iloc[:, i]):
                    inc = not norm(include) or any(x in num for x in norm(include))
                    exc = any(x in num for x in norm(exclude))
                    ok = inc and not exc
                else:
                    ok = o_sel(self.iloc[:, [i]], include, exclude).shape[1] == 1
                if ok:
                    keep.append(i)
            return self.iloc[:, keep]
        return o_sel(self, include, exclude)
    pd.DataFrame.select_dtypes = select_dtypes

    import pandas.api.types as pat
    o_isnum = pat.is_numeric_dtype

    def is_numeric_dtype(x):
        if isinstance(x, (pd.Series, real_np.ndarray)) and has_sym(x):
            return True
        return o_isnum(x)
    pat.is_numeric_dtype = is_numeric_dtype
    pd.api.types.is_numeric_dtype = is_numeric_dtype

    for cls in (pd.DataFrame, pd.Series):
        def mk(o):
            def astype(self, dtype, *a, **k):
                if isinstance(dtype, dict) and isinstance(self, pd.DataFrame) and has_sym(self):
                    out = self.copy()
                    for c, t in dtype.items():
                        out[c] = out[c].astype(t)
                    return out
                if isinstance(dtype, dict):
                    dtype = {c: _plain(t) for c, t in dtype.items()}
                elif has_sym(self) and _is_float_dtype(dtype):
                    return self.copy()
                return o(self, _plain(dtype), *a, **k)
            return astype
        cls.astype = mk(cls.astype)

        def mkt(o):
            def to_numpy(self, dtype=None, *a, **k):
                if dtype is not None and _is_float_dtype(dtype) and has_sym(self):
                    dtype = object
                return o(self, dtype, *a, **k)
            return to_numpy
        cls.to_numpy = mkt(cls.to_numpy)

        def mkr(o):
            def round_(self, decimals=0, *a, **k):
                if has_sym(self):
                    f = lambda e: round(e, decimals) if isinstance(e, Sym) else e
                    return self.map(f) if isinstance(self, pd.Series) else self.applymap(f)
                return o(self, decimals, *a, **k)
            return round_
        cls.round = mkr(cls.round)
    _patch_select()
    _patch_rank_corr()
    o_ton = pd.to_numeric
    pd.to_numeric = lambda x, *a, **k: x if has_sym(x) else o_ton(x, *a, **k)


def _plain(dtype):
    return float if isinstance(dtype, type) and dtype is not float and issubclass(dtype, float) \
        and not issubclass(dtype, real_np.generic) else dtype


def _patch_select():
    """largest / smallest entries: a stable sort, as pandas documents it (keep="first")"""
    def series(o, asc):
        def f(self, n=5, keep="first"):
            if self.dtype == object:
                if keep != "first":
                    raise Unsupported("nlargest keep=" + str(keep))
                return self.dropna().sort_values(ascending=asc, kind="stable").head(n)
            return o(self, n, keep)
        return f

    def frame(o, asc):
        def f(self, n, columns, keep="first"):
            cols = [columns] if isinstance(columns, str) else list(columns)
            if any(self[c].dtype == object for c in cols):
                if keep != "first":
                    raise Unsupported("nlargest keep=" + str(keep))
                return self.sort_values(cols, ascending=asc, kind="stable").head(n)
            return o(self, n, columns, keep)
        return f
    for n, asc in (("nlargest", False), ("nsmallest", True)):
        setattr(pd.Series, n, series(getattr(pd.Series, n), asc))
        setattr(pd.DataFrame, n, frame(getattr(pd.DataFrame, n), asc))

    def arg(o, name):
        def f(self, axis=0, skipna=True, **k):
            if has_sym(self):
                g = self if axis in (0, "index") else self.T
                return pd.Series({c: getattr(g[c], name)() for c in g.columns})
            return o(self, axis, skipna, **k)
        return f
    for n in ("idxmax", "idxmin"):
        setattr(pd.DataFrame, n, arg(getattr(pd.DataFrame, n), n))

    from pandas.core.groupby import DataFrameGroupBy, SeriesGroupBy

    def none(o):        # groups without a value: None for objects, NaN for numbers
        def f(self, *a, **k):
            r = o(self, *a, **k)
            if isinstance(self.obj, pd.Series) and has_sym(self.obj) or isinstance(self.obj, pd.DataFrame) and has_sym(self.obj):
                g = lambda e: float("nan") if e is None else e
                return r.map(g) if isinstance(r, pd.Series) else r.applymap(g)
            return r
        return f
    for cls in (SeriesGroupBy, DataFrameGroupBy):
        for n in ("first", "last"):
            setattr(cls, n, none(getattr(cls, n)))

    def cum(o):
        def f(self, *a, **k):
            return self.transform(lambda q: q.cumsum()) if has_sym(self.obj) else o(self, *a, **k)
        return f
    SeriesGroupBy.cumsum = cum(SeriesGroupBy.cumsum)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not has_sym(x):
        return real_np.nan_to_num(x, copy, nan, posinf, neginf)
    if isinstance(x, Sym):
        return x
    a = real_np.array(x, dtype=object)
    for i, e in enumerate(a.flat):
        if not isinstance(e, Sym) and e != e:
            a.flat[i] = nan
    return _wrap(a)


def _bincount(x, weights=None, minlength=0):
    if weights is None or not has_sym(weights):
        return real_np.bincount(x, weights, minlength)
    x = [int(i) for i in x]
    out = real_np.array([0.0] * max([minlength] + [i + 1 for i in x]), dtype=object)
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return _wrap(out)


def _known(e):
    return isinstance(e, Sym) or e is not None and e == e


def rank_list(v, method="average", ascending=True, pct=False):
    """ranks of the values (nan stays nan); comparisons of symbolic values fork"""
    idx = [i for i, e in enumerate(v) if _known(e)]
    out = [float("nan")] * len(v)
    rel = {(i, j): bool(v[i] < v[j] if ascending else v[i] > v[j]) for i in idx for j in idx if i != j}
    for i in idx:
        less = sum(1 for j in idx if j != i and rel[(j, i)])
        tie = [j for j in idx if j != i and not rel[(j, i)] and not rel[(i, j)]]
        if method == "average":
            r = less + 1 + len(tie) / 2
        elif method == "min":
            r = less + 1
        elif method == "max":
            r = less + 1 + len(tie)
        elif method == "first":
            r = less + 1 + sum(1 for j in tie if j < i)
        elif method == "dense":
            below = [j for j in idx if j != i and rel[(j, i)]]
            r = 1 + sum(1 for a, j in enumerate(below)
                        if not any(not rel[(j, q)] and not rel[(q, j)] for q in below[:a]))
        else:
            raise Unsupported("rank method %r" % (method,))
        out[i] = float(r) / (len(idx) if pct else 1)
    return out


def corr_lists(a, b, method="pearson"):
    k = [i for i in range(len(a)) if _known(a[i]) and _known(b[i])]
    a, b = [a[i] for i in k], [b[i] for i in k]
    if callable(method):
        return method(_wrap(real_np.array(a, dtype=object)), _wrap(real_np.array(b, dtype=object)))
    if method == "spearman":
        a, b, method = rank_list(a), rank_list(b), "pearson"
    if method == "kendall":
        a, b = rank_list(a), rank_list(b)
        return pd.Series(a).corr(pd.Series(b), method="kendall")
    if method != "pearson":
        raise ValueError("method must be either 'pearson', 'spearman', 'kendall', or a callable")
    if not has_sym(a) and not has_sym(b):
        return pd.Series(a, dtype=float).corr(pd.Series(b, dtype=float))
    if len(a) < 2:
        return float("nan")
    ma, mb = sum(a) / len(a), sum(b) / len(b)
    num = sum((x - ma) * (y - mb) for x, y in zip(a, b))
    den = _sqrt(sum((x - ma) * (x - ma) for x in a)) * _sqrt(sum((y - mb) * (y - mb) for y in b))
    if den == 0:
        return float("nan")
    return num / den


def _patch_rank_corr():
    o_rank, o_corr, o_scorr = pd.DataFrame.rank, pd.DataFrame.corr, pd.Series.corr
    o_srank = pd.Series.rank

    def srank(self, axis=0, method="average", numeric_only=None, na_option="keep", ascending=True, pct=False):
        if not has_sym(self):
            return o_srank(self, axis, method, na_option=na_option, ascending=ascending, pct=pct)
        if na_option != "keep" and not all(_known(e) for e in self.values):
            raise Unsupported("rank na_option")
        return pd.Series(rank_list(list(self.values), method, ascending, pct), index=self.index, name=self.name)

    def rank(self, axis=0, method="average", numeric_only=None, na_option="keep", ascending=True, pct=False):
        if not has_sym(self):
            return o_rank(self, axis, method, na_option=na_option, ascending=ascending, pct=pct)
        if axis not in (0, "index"):
            raise Unsupported("rank axis")
        cols = [srank(self.iloc[:, i], 0, method, None, na_option, ascending, pct) for i in numcols_of(self)]
        return pd.concat(cols, axis=1)

    def corr(self, method="pearson", min_periods=1, numeric_only=None):
        if not has_sym(self):
            return o_corr(self, method, min_periods)
        k = numcols_of(self)
        m = real_np.empty((len(k), len(k)), dtype=object)
        for i, a in enumerate(k):
            for j, b in enumerate(k):
                m[i, j] = 1.0 if i == j else m[j, i] if j < i else corr_lists(
                    list(self.iloc[:, a]), list(self.iloc[:, b]), method)
        return pd.DataFrame(m, index=self.columns[k], columns=self.columns[k])

    def scorr(self, other, method="pearson", min_periods=None):
        if not has_sym(self) and not has_sym(other):
            return o_scorr(self, other, method, min_periods)
        a, b = self.align(other, join="inner")
        return corr_lists(list(a), list(b), method)
    pd.Series.rank, pd.DataFrame.rank, pd.DataFrame.corr, pd.Series.corr = srank, rank, corr, scorr


def numcols_of(df):
    return [i for i in range(df.shape[1]) if df.dtypes.iloc[i].kind in "biufc" or has_sym(df.iloc[:, i])]


# ---------------------------------------------------------------- loading the project's source
def _make_builtins(np_proxy):
    b = dict(builtins.__dict__)
    real_import = builtins.__import__

    table = {"numpy": np_proxy, "statistics": stat_proxy, "math": math_proxy}

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = real_import(name, globals, locals, fromlist, level)
        if level == 0:
            top = name.split(".")[0]
            if top in table:
                if "." in name and fromlist:
                    o = table[top]
                    for part in name.split(".")[1:]:
                        o = getattr(o, part)
                    return o
                return table[top]
        return m
    b["__import__"] = imp

    class SymFloat(float):
        def __new__(cls, *a):
            if a and isinstance(a[0], Sym):
                return a[0]
            return float(*a)
    SymFloat.__name__ = "float"

    class _FM(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (float, Sym))

        def __call__(cls, *a):
            if a and isinstance(a[0], Sym):
                return a[0]
            return float(*a)

        def __eq__(cls, o):
            return o is float or o is cls

        def __hash__(cls):
            return hash(float)

    class F(float, metaclass=_FM):
        dtype = real_np.dtype("float64")     # numpy and pandas take it for float
    F.__name__ = "float"
    b["float"] = F
    return b


class SymLoader(importlib.abc.Loader):
    def __init__(self, path, builtins_dict):
        self.path, self.b = path, builtins_dict

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as fh:
            src = fh.read()
        module.__dict__["__builtins__"] = self.b
        exec(compile(src, self.path, "exec"), module.__dict__)


class SymFinder(importlib.abc.MetaPathFinder):
    def __init__(self, builtins_dict):
        self.b = builtins_dict

    def find_spec(self, name, path=None, target=None):
        if name != "artemis" and not name.startswith("artemis."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=SymLoader(p, self.b), submodule_search_locations=[base] if pkg else None)
        return None


def install(rng_over):
    """Symbolic environment; call once, before artemis is imported in this process."""
    assert not any(m == "artemis" or m.startswith("artemis.") for m in sys.modules)
    patch_pandas()
    b = _make_builtins(make_np_proxy(rng_over))
    sys.meta_path.insert(0, SymFinder(b))


class RepoFinder(importlib.abc.MetaPathFinder):
    """Concrete side: the same source files, ordinary modules."""

    def find_spec(self, name, path=None, target=None):
        if name != "artemis" and not name.startswith("artemis."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, submodule_search_locations=[base] if pkg else None)
        return None


def install_concrete():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, RepoFinder())
