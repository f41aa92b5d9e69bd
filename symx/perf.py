"""Harness parts for the permutation based methods: an arbitrary performance metric over traceable predictions."""
import numpy as np
import pandas as pd

from . import rng
from .lib import Data

BASE = 50


class CodeModel:
    """Model whose prediction of a row identifies exactly which cells the row is made of."""

    def __init__(self, data):
        self._d = data

    def predict(self, X):
        d = self._d
        if list(X.columns) != d.names:
            raise KeyError("model got columns %r, was trained on %r" % (list(X.columns), d.names))
        out = []
        for r in range(len(X)):
            code = 0
            for c in range(len(d.names)):
                rep = d.rep(c, X.iloc[r, c])
                code = code * BASE + (49 if rep is None else rep)
            out.append(float(code))
        return np.array(out)


def code_of(data, cells):
    """cells: row number per column"""
    code = 0
    for c, r in enumerate(cells):
        rep = data.rep(c, data.cells[data.names[c]][r])
        code = code * BASE + rep
    return float(code)


def make_metric(ctx, problem):
    """an arbitrary metric: its value is a fresh variable per (targets, predictions) pair"""
    from artemis._utilities.performance_metrics import Metric
    from artemis._utilities.domain import ProblemType

    class Arbitrary(Metric):
        def __init__(self):
            super().__init__(getattr(ProblemType, problem.upper()))
            self.calls = []

        def value(self, y, p):
            return ctx.real("metric(%s;%s)" % (",".join(str(int(v)) for v in y), ",".join(str(int(v)) for v in p)))

        def calculate(self, y_true, y_hat):
            y, p = list(np.asarray(y_true)), list(np.asarray(y_hat))
            self.calls.append((tuple(y), tuple(p)))
            return self.value(y, p)
    return Arbitrary()


def targets(n, kind, index):
    y = [1000.0 + 7 * r for r in range(n)]
    return pd.Series(y, index=index) if kind == "series" else np.array(y)


class Perf:
    """performance of the model on rows `rows` with some columns permuted"""

    def __init__(self, ctx, data, metric, rows, y):
        self.ctx, self.data, self.metric = ctx, data, metric
        self.rows = list(rows)
        self.y = [1000.0 + 7 * r for r in self.rows]

    def perf(self, perms=None):
        """perms: {column position: permutation of positions}"""
        perms = perms or {}
        m = len(self.data.names)
        p = []
        for i, r in enumerate(self.rows):
            p.append(code_of(self.data, [self.rows[perms[c][i]] if c in perms else r for c in range(m)]))
        return self.metric.value(self.y, p)


def key(ctx, v):
    """hashable identity of a value (symbolic: exact polynomial; concrete: rounded float)"""
    from .sym import Sym, p_key
    if ctx.symbolic:
        c = Sym._coerce(v)
        return p_key(c) if not isinstance(c, float) else c
    return round(float(v), 6) + 0.0


def draws(n):
    """full-length permutations drawn so far"""
    return [tuple(p) for _, p in rng.LOG if sorted(p) == list(range(n))]
