"""Harness building blocks, identical in both modes."""
import numpy as np
import pandas as pd

from .sym import Sym


def isnum(v):
    return not isinstance(v, str)


# columns of other types: (dtype, numeric?, values); every pattern of equal/different rows, values in this order
TYPED = {
    "i": ("int64", True, [3, 1, 2, 0]),
    "I": ("int8", True, [3, 1, 2, 0]),
    "f": ("float32", True, [0.75, 0.5, 0.25, 2.0]),
    "b": ("bool", True, [True, False]),
    "N": ("Int64", True, [3, 1, 2, 0]),
    "k": (pd.CategoricalDtype(["v", "y", "x", "z"], ordered=True), False, ["z", "x", "y", "v"]),
    "K": (pd.CategoricalDtype([0, 3, 1, 2]), False, [3, 1, 2, 0]),
    "s": ("string", False, ["z", "x", "y", "v"]),
    "d": ("datetime64[ns]", False, [pd.Timestamp("2022-05-01"), pd.Timestamp("2020-01-01"),
                                    pd.Timestamp("2021-02-03"), pd.Timestamp("2019-01-01")]),
    "L": ("int64", True, [2 ** 53 + 3, 2 ** 53 + 1, 2 ** 53 + 2, 2 ** 53]),
}


ODD = ["x 1", "10", "9", "%s"]


class Data:
    """An n x m table with arbitrary cells.

    spec: one entry per column, 'num' (arbitrary reals) or 'cat' (strings from a pool of len n, every
    pattern of equal/different rows up to renaming), or a key of TYPED."""

    def __init__(self, ctx, n, names, spec=None, index=None, tag="x", distinct=False, fixed=False, pool=9):
        self.ctx, self.n, self.names = ctx, n, list(names)
        self.spec = [{"n": "num", "c": "cat"}.get(x, x) for x in (spec or ["num"] * len(self.names))]
        self.tag = tag
        self.cells = {}
        self.dtype = {}
        for c, name in enumerate(self.names):
            col = []
            if self.spec[c] in TYPED:
                self.dtype[name], numeric, values = TYPED[self.spec[c]]
                self.spec[c] = "num" if numeric else "cat"
                used = 0
                for r in range(n):
                    if fixed:
                        k = r % len(values)
                    else:
                        k = ctx.choose("%s[%d,%d]" % (tag, r, c), min(used + 1, pool, len(values)))
                    used = max(used, k + 1)
                    col.append(values[k])
            elif self.spec[c] == "num":
                for r in range(n):
                    if fixed == "close":        # distinct values that nearly coincide
                        lo, step = [(1.0, 1e-9), (-3e8, 0.25), (0.0, 1e-13)][c % 3]
                        col.append(lo + step * ((n - 1 - r if c % 2 else r) + c // 2))
                        continue
                    if fixed:       # distinct values, a different row order per column
                        col.append(float(((n - 1 - r if c % 2 else r) + c // 2) % n + 10 * c))
                        continue
                    v = ctx.real("%s[%d,%d]" % (tag, r, c))
                    if distinct:
                        for o in col:
                            ctx.assume(v != o)
                    col.append(v)
            else:
                used = 0
                for r in range(n):
                    k = ctx.choose("%s[%d,%d]" % (tag, r, c), min(used + 1, pool))
                    used = max(used, k + 1)
                    col.append("c%d%s" % (c, "zyxw"[k]))      # reverse alphabetical: first seen sorts last
            self.cells[name] = col
        self.index = list(range(n)) if index is None else list(index)
        self.frame = self.make(range(n))

    def make(self, rows):
        d = {}
        for c, name in enumerate(self.names):
            v = [self.cells[name][r] for r in rows]
            if name in self.dtype:
                d[name] = pd.Series(v, dtype=self.dtype[name], index=[self.index[r] for r in rows]).array
            elif self.spec[c] == "num" and all(isinstance(x, (int, float)) for x in v):
                d[name] = np.array(v, dtype=float)
            else:
                a = np.empty(len(v), dtype=object)
                a[:] = v
                d[name] = a
        return pd.DataFrame(d, columns=self.names, index=[self.index[r] for r in rows])

    def rep(self, c, value):
        """canonical row of a value in column c: first row holding an equal value; None if foreign"""
        col = self.cells[self.names[c]]
        for r, v in enumerate(col):
            if v is value:
                return r
            if isinstance(v, str) or isinstance(value, str):
                if isinstance(v, str) and isinstance(value, str) and v == value:
                    return r
                continue
            if value is None or isinstance(value, float) and value != value:
                return None
            if bool(v == value):
                return r
        return None

    def row(self, r):
        return tuple(self.cells[nm][r] for nm in self.names)


class Predictor:
    """An arbitrary deterministic model: equal rows get equal predictions, nothing else is assumed.

    Prediction of a row is a fresh variable named after the canonical rows its cells come from, so the
    model is an uninterpreted function over the table's values."""

    def __init__(self, ctx, data, tag="p", kind="predict", additive=False, value=None):
        self.ctx, self.data, self.tag, self.kind = ctx, data, tag, kind
        self.additive, self.value = additive, value
        self.foreign = {}
        self.calls = []
        self.bad_columns = None

    def at(self, reps):
        if self.value is not None:
            return self.value(reps)
        if self.additive:
            t = 0
            for c, r in enumerate(reps):
                t = t + self.ctx.real("%s[%d:%s]" % (self.tag, c, r))
            return t
        return self.ctx.real("%s[%s]" % (self.tag, ",".join(str(r) for r in reps)))

    def reps_of(self, row):
        out = []
        for c, v in enumerate(row):
            r = self.data.rep(c, v)
            if r is None:
                for k, w in self.foreign.items():
                    if k[0] == c and not isinstance(v, str) and not isinstance(w, str) and bool(w == v):
                        r = k[1]
                        break
                else:
                    r = "u%d" % len(self.foreign)
                    self.foreign[(c, r)] = v
            out.append(r)
        return tuple(out)

    def rows(self, rows):
        v = [self.at(self.reps_of(r)) for r in rows]
        if self.ctx.symbolic:
            a = np.empty(len(v), dtype=object)
            a[:] = v
            from .patches import SymArr
            return a.view(SymArr)
        return np.array(v, dtype=float)

    def __call__(self, X):
        if list(X.columns) != self.data.names:
            raise KeyError("model got columns %r, was trained on %r" % (list(X.columns), self.data.names))
        self.calls.append(len(X))
        cols = [list(X[c]) for c in self.data.names]
        return self.rows(list(zip(*cols)))

    def ref(self, r):
        """prediction on the table's own row r"""
        return self.at(self.reps_of(self.data.row(r)))

    def mix(self, over, r):
        """prediction on row r with the cells of columns in `over` (dict column position -> row) replaced"""
        return self.at(tuple(self.data.rep(c, self.data.cells[nm][over.get(c, r)])
                             for c, nm in enumerate(self.data.names)))


class PredictModel:
    """model exposing predict"""

    def __init__(self, predictor):
        self._p = predictor

    def predict(self, X):
        return self._p(X)


class ProbaModel:
    """classifier: predict_proba's second column is the explained output; predict is something else"""

    def __init__(self, predictor):
        self._p = predictor

    def predict_proba(self, X):
        y = self._p(X)
        return np.column_stack([1 - y, y])

    def predict(self, X):
        return 0 * self._p(X) + 77


class OpaqueModel:
    """no predict at all: only usable through predict_function"""

    def __init__(self, predictor):
        self._p = predictor


def predict_fn(m, X):
    return m._p(X)


def make_model(ctx, data, how, **kw):
    """(model, predict_function or None, predictor)"""
    p = Predictor(ctx, data, **kw)
    if how == "predict":
        return PredictModel(p), None, p
    if how == "proba":
        return ProbaModel(p), None, p
    return OpaqueModel(p), predict_fn, p


def uniq(ctx, data, c):
    """canonical rows of column c in increasing value order"""
    col = data.cells[data.names[c]]
    reps = []
    for r in range(data.n):
        if data.rep(c, col[r]) == r:
            reps.append(r)
    out = []
    for r in reps:
        i = 0
        while i < len(out) and bool(col[out[i]] < col[r]):
            i += 1
        out.insert(i, r)
    return out


def pd_ref(ctx, pred, data, rows, over):
    """mean prediction over `rows` with the columns in `over` fixed to the cell of the given row"""
    return ctx.mean([pred.mix(over, r) for r in rows])


def lookup(df, f1, f2, col, a="Feature 1", b="Feature 2", ordered=False):
    """values of `col` in rows for the pair (either order)"""
    out = []
    for i in range(len(df)):
        x, y = df[a].iloc[i], df[b].iloc[i]
        if (x, y) == (f1, f2) or not ordered and (x, y) == (f2, f1):
            out.append(df[col].iloc[i])
    return out


# ------------------------------------------------------------------ partial-dependence reference
class PD:
    """reference partial dependence on a set of rows of the table"""

    def __init__(self, ctx, pred, data, rows=None):
        self.ctx, self.pred, self.data = ctx, pred, data
        self.rows = list(range(data.n) if rows is None else rows)
        self._c = {}

    def __call__(self, over):
        k = tuple(sorted(over.items()))
        if k not in self._c:
            self._c[k] = pd_ref(self.ctx, self.pred, self.data, self.rows, over)
        return self._c[k]

    def single(self, c):
        return [self({c: r}) for r in self.rows]

    def pair(self, c1, c2):
        return [self({c1: r, c2: r}) for r in self.rows]

    def minus(self, c):
        return [self({o: r for o in range(len(self.data.names)) if o != c}) for r in self.rows]

    def preds(self):
        return [self.pred.ref(r) for r in self.rows]

    def uniq(self, c):
        """one row per distinct value among self.rows, increasing"""
        col = self.data.cells[self.data.names[c]]
        out = []
        for r in self.rows:
            if any(self.data.rep(c, col[r]) == self.data.rep(c, col[o]) for o in out):
                continue
            i = 0
            while i < len(out) and bool(col[out[i]] < col[r]):
                i += 1
            out.insert(i, r)
        return out

    def hstat(self, a, b, ab, normalized):
        """None where the ratio is x/0 with x != 0 (unspecified)"""
        ctx = self.ctx
        ca, cb, cab = ctx.center(a), ctx.center(b), ctx.center(ab)
        num = sum((z - x - y) * (z - x - y) for x, y, z in zip(ca, cb, cab))
        if not normalized:
            return ctx.sqrt(num / len(ca))
        den = sum(z * z for z in cab)
        if iszero(ctx, den):
            return 0.0 if iszero(ctx, num) else None
        return num / den

    def h_pair(self, c1, c2, normalized=True):
        return self.hstat(self.single(c1), self.single(c2), self.pair(c1, c2), normalized)

    def h_all(self, c, normalized=True):
        return self.hstat(self.single(c), self.minus(c), self.preds(), normalized)

    def cond_imp(self, vals, numeric):
        if numeric:
            return self.ctx.std(vals, 1) if len(vals) > 1 else 0.0
        return (vmax(vals) - vmin(vals)) / 4

    def greenwell(self, c1, c2):
        u1, u2 = self.uniq(c1), self.uniq(c2)
        n1, n2 = (self.data.spec[c] == "num" for c in (c1, c2))

        def sd(v):
            return self.ctx.std(v, 1) if len(v) > 1 else 0.0
        j = sd([self.cond_imp([self({c1: r, c2: s}) for s in u2], n2) for r in u1])
        i = sd([self.cond_imp([self({c1: r, c2: s}) for r in u1], n1) for s in u2])
        return (i + j) / 2

    def importance(self, c):
        v = [self({c: r}) for r in self.uniq(c)]
        if self.data.spec[c] == "num":
            return self.ctx.std(v, 0)
        return (vmax(v) - vmin(v)) / 4

    def additivity(self):
        ctx = self.ctx
        p = self.preds()
        m = ctx.mean(p)
        t, b = 0, 0
        cols = [self.single(c) for c in range(len(self.data.names))]
        for k in range(len(p)):
            s = m + sum(col[k] - m for col in cols)
            t = t + (p[k] - s) * (p[k] - s)
            b = b + (p[k] - m) * (p[k] - m)
        return t, b


def vmax(v):
    m = v[0]
    for x in v[1:]:
        if bool(x > m):
            m = x
    return m


def vmin(v):
    m = v[0]
    for x in v[1:]:
        if bool(x < m):
            m = x
    return m


def iszero(ctx, x):
    if ctx.symbolic:
        return bool(x == 0)
    return abs(x) < 1e-9


def table(df, keys, col):
    """{key tuple: value} preserving row order"""
    out = {}
    for i in range(len(df)):
        out.setdefault(tuple(df[k].iloc[i] for k in keys), []).append(df[col].iloc[i])
    return out


def check_pairs(ctx, ovo, col, want, label, a="Feature 1", b="Feature 2", ascending=False):
    """`want`: {(f1, f2): value or None}. Every pair exactly once, right value, strongest first."""
    t = table(ovo, (a, b), col)
    ctx.true(len(ovo) == len(want), label + ": one row per pair")
    for (f1, f2), w in want.items():
        got = t.get((f1, f2), []) + t.get((f2, f1), [])
        if len(got) != 1:
            ctx.true(False, label + ": pair %s-%s appears exactly once" % (f1, f2))
            continue
        if w is not None:
            ctx.eq(got[0], w, label + " %s-%s" % (f1, f2))
    check_sorted(ctx, list(ovo[col]), label, ascending)
    check_numbered(ctx, ovo, label)


def check_numbered(ctx, df, label):
    """row i of a published table is row number i"""
    ctx.true(list(df.index) == list(range(len(df))), label + ": rows are numbered in their order")


def check_sorted(ctx, vals, label, ascending=False):
    for x, y in zip(vals, vals[1:]):
        if ascending:
            ctx.le(x, y, label + ": strongest first")
        else:
            ctx.le(y, x, label + ": strongest first")


def check_features(ctx, df, want, label, col="Importance", ascending=False, key="Feature"):
    t = table(df, (key,), col)
    ctx.true(len(df) == len(want), label + ": one row per feature")
    for f, w in want.items():
        got = t.get((f,), [])
        if len(got) != 1:
            ctx.true(False, label + ": feature %s appears exactly once" % f)
            continue
        if w is not None:
            ctx.eq(got[0], w, label + " of %s" % f)
    check_sorted(ctx, list(df[col]), label, ascending)
    check_numbered(ctx, df, label)


def feature_sets(ctx, names, mode):
    """the `features` argument and the feature list it denotes"""
    if mode == "all":
        return None, list(names)
    if mode == "rev":
        return list(names)[::-1], list(names)[::-1]
    if mode == "sub":
        return list(names)[1:], list(names)[1:]
    if mode == "subrev":
        return list(names)[:0:-1], list(names)[:0:-1]
    raise ValueError(mode)
