"""Sampling: n rows of the input, targets aligned, inputs untouched, results are those of the sample."""
import pandas as pd
import numpy as np
from symx import rng, perf
from symx.lib import Data, make_model
from symx.props.C02 import results, compare

NAMES = ["b", "a", "c"]
BOUNDS = ("3 rows x 2 columns sampled to n = 1, 2, 3 or unsampled; every sample the generator can return; row labels "
          "0..n-1, shuffled, shifted and repeated; arbitrary prediction function / metric; target as array or series")
STUBS = ["random generator: arbitrary sample"]
IDX = [[0, 1, 2], [2, 0, 1], [5, 6, 7], [4, 4, 1], ["r", "q", "s"]]


def configs(tier):
    out = []
    for who in "HGIA":
        for k in (None, 2, 3):
            out.append({"who": who, "n": k})
    for k in (None, 1, 2, 3):
        for y in ("array", "series"):
            out.append({"who": "S", "n": k, "y": y})
    if tier == "thorough":
        for who in "HGIA":
            for k in (2, 3):
                out.append({"who": who, "n": k, "rows": 4})
    return out


def which_rows(data, frame):
    """input rows the frame consists of (identified by the distinct values of the first column)"""
    out = []
    for i in range(len(frame)):
        r = data.rep(0, frame[data.names[0]].iloc[i])
        if r is None or any(data.rep(c, frame[nm].iloc[i]) != r for c, nm in enumerate(data.names)):
            return None
        out.append(r)
    return out


def run(ctx, cfg):
    who, k = cfg["who"], cfg["n"]
    n = cfg.get("rows", 3)
    idx = ctx.pick("index", IDX if n == 3 else [[3, 1, 0, 2], [9, 9, 8, 7]])
    data = Data(ctx, n, NAMES[:2], "nn", index=idx, fixed=True)
    X = data.frame.copy()
    if who == "S":
        return sejong(ctx, cfg, data, X)
    model, fn, pred = make_model(ctx, data, "predict")
    if who == "A":      # the index is undefined when predictions do not vary on the sample
        for a in range(n):
            for b in range(a):
                ctx.assume(pred.ref(a) != pred.ref(b))
    from symx.props.C02 import make
    o = make(who)
    (o.importance if who == "I" else o.fit)(model, X, n=k)
    S = o.X_sampled
    rows = check_sample(ctx, data, X, S, k)
    if rows is None:
        return
    fresh = make(who)
    (fresh.importance if who == "I" else fresh.fit)(model, data.make(rows))
    compare(ctx, results(o), results(fresh), "results are those of the sampled rows")


def check_sample(ctx, data, X, S, k):
    ctx.true(X.equals(data.frame) and list(X.index) == list(data.frame.index), "input table unchanged")
    ctx.true(list(S.columns) == data.names, "sample has the input's columns")
    rows = which_rows(data, S)
    ctx.true(rows is not None, "every sampled row is a row of the input")
    if rows is None:
        return None
    if k is None:
        ctx.true(rows == list(range(data.n)), "without n all rows are used, in order")
    else:
        ctx.true(len(rows) == k, "exactly n rows are used")
        ctx.true(len(set(rows)) == len(rows), "no row is used twice")
        ctx.true([data.index[r] for r in rows] == list(S.index), "rows keep their labels")
        ctx.true(len(rng.LOG) > 0, "the sample is drawn from the random generator")
    return rows


def sejong(ctx, cfg, data, X):
    from artemis.interactions_methods.model_agnostic import SejongOhMethod
    rng.restrict(lambda n: [tuple(range(n)), tuple(range(1, n)) + (0,)] if n > 2 else [(1, 0)])
    metric = perf.make_metric(ctx, "regression")
    y = perf.targets(data.n, cfg["y"], data.index)
    y0 = y.copy()
    m = SejongOhMethod(metric)
    m.fit(perf.CodeModel(data), X, y, n=cfg["n"], n_repeat=1)
    rows = check_sample(ctx, data, X, m.X_sampled, cfg["n"])
    if rows is None:
        return
    ctx.true(list(np.asarray(y)) == list(np.asarray(y0)), "targets unchanged")
    want = [1000.0 + 7 * r for r in rows]
    ctx.true(list(np.asarray(m.y_sampled)) == want, "sampled targets belong to the sampled rows")
    ctx.true(len(metric.calls) > 0 and all(list(c[0]) == want for c in metric.calls),
             "performance is measured against the sampled rows' targets")
    D = perf.draws(len(rows))
    from symx.props.C08 import match_pairs
    from symx.props.C09 import match_importance
    pf = perf.Perf(ctx, data, metric, rows, y)
    if len(rows) > 1:
        used = match_pairs(ctx, pf, m.ovo, m.method, data.names, 1, D, "interaction on the sample")
        rest = [d for i, d in enumerate(D) if used and i not in used]
        match_importance(ctx, pf, m.feature_importance, data.names, 1, "regression", rest, "importance on the sample")
