"""Permutation importance."""
import pandas as pd
from symx import rng, perf
from symx.lib import Data, check_numbered, check_sorted

NAMES = ["b", "a", "c"]
BOUNDS = ("2 rows x 2-3 columns with 1-2 repeats and every permutation drawn; 3 rows x 2 columns, 1 repeat; 3x2 with 2 "
          "repeats over the permutations {identity, swap, rotation}; 4 rows, 3 repeats, fixed sequence of permutations; metric = arbitrary function of targets and "
          "predictions, regression and classification; target as array or series; features all / reversed / subset; "
          "typed columns; the default number of repeats with a fixed sequence")
STUBS = ["random generator: arbitrary permutations", "metric: uninterpreted function"]


def configs(tier):
    out = []
    for prob in ("regression", "classification"):
        out += [{"n": 2, "m": 2, "k": 2, "prob": prob, "features": "none", "y": "array"},
                {"n": 2, "m": 2, "k": 2, "prob": prob, "features": "rev", "y": "series"},
                {"n": 2, "m": 3, "k": 1, "prob": prob, "features": "none", "y": "series"},
                {"n": 2, "m": 3, "k": 2, "prob": prob, "features": "sub", "y": "array"},
                {"n": 3, "m": 2, "k": 1, "prob": prob, "features": "none", "y": "array"},
                {"n": 3, "m": 2, "k": 2, "prob": prob, "features": "none", "y": "series", "pool": True},
                {"n": 4, "m": 2, "k": 3, "prob": prob, "features": "none", "y": "series", "script": True},
                {"n": 4, "m": 3, "k": 3, "prob": prob, "features": "rev", "y": "array", "script": True}]
        if tier == "thorough":
            out += [{"n": 3, "m": 2, "k": 2, "prob": prob, "features": "none", "y": "series"},
                    {"n": 3, "m": 3, "k": 1, "prob": prob, "features": "rev", "y": "series"},
                    {"n": 2, "m": 3, "k": 3, "prob": prob, "features": "none", "y": "array"}]
        out += [{"n": 2, "m": 2, "k": 2, "prob": prob, "features": "none", "y": "series", "spec": "ik", "show": True},
                {"n": 4, "m": 3, "k": 3, "prob": prob, "features": "rev", "y": "array", "spec": "KLs", "script": True},
                {"n": 4, "m": 3, "k": None, "prob": prob, "features": "none", "y": "array", "spec": "nnd", "script": True}]
    return out


def feature_arg(names, mode):
    if mode == "none":
        return None, list(names)
    f = list(names)[::-1] if mode == "rev" else list(names)[1:]
    return list(f), f


def match_importance(ctx, pf, df, feats, k, prob, pool, label):
    """each feature: mean over k repeats of the performance lost when this feature alone is permuted; the draws
    used by different features and repeats are different draws of the generator (any order)"""
    data = pf.data
    pos = {f: i for i, f in enumerate(data.names)}
    got = {}
    for i in range(len(df)):
        got.setdefault(df["Feature"].iloc[i], []).append(df["Importance"].iloc[i])
    ctx.true(sorted(got) == sorted(feats) and len(df) == len(feats), label + ": one row per feature")
    base = pf.perf()
    sgn = -1 if prob == "classification" else 1
    # natural order first: repeats outermost, features in order; then features outermost; then any assignment
    D = list(pool)

    def value(f, idx):
        t = 0
        for i in idx:
            t = t + pf.perf({pos[f]: D[i]})
        return sgn * (t / k - base)
    F = len(feats)
    orders = []
    if len(D) >= F * k:
        orders = [{f: [r * F + j for r in range(k)] for j, f in enumerate(feats)},
                  {f: [j * k + r for r in range(k)] for j, f in enumerate(feats)}]
        orders += [{f: [len(D) - F * k + i for i in v] for f, v in o.items()} for o in orders]
    for o in orders:
        if all(key_eq(ctx, got[f][0], value(f, o[f])) for f in feats):
            break
    else:
        o = search(ctx, got, feats, k, D, value)
        if o == "many":      # too many possible assignments of draws: only their number is checked
            return
        if o is None:
            o = orders[0] if orders else None
    ctx.true(o is not None, label + ": enough random permutations were drawn")
    if o is not None:
        for f in feats:
            ctx.eq(got[f][0], value(f, o[f]), label + " of %s" % f)
    check_sorted(ctx, list(df["Importance"]), label)
    check_numbered(ctx, df, label)


def key_eq(ctx, a, b):
    try:
        return perf.key(ctx, a) == perf.key(ctx, b)
    except (TypeError, ValueError):
        return False


def search(ctx, got, feats, k, D, value):
    from itertools import combinations
    from math import comb
    if comb(len(D), k) > 100000:
        return "many"
    opts = {}
    for f in feats:
        g = perf.key(ctx, got[f][0])
        opts[f] = [c for c in combinations(range(len(D)), k) if perf.key(ctx, value(f, c)) == g]
        if not opts[f]:
            return None

    def rec(i, used, acc):
        if i == len(feats):
            return dict(acc)
        for c in opts[feats[i]]:
            if not used & set(c):
                acc[feats[i]] = list(c)
                r = rec(i + 1, used | set(c), acc)
                if r:
                    return r
        return None
    return rec(0, set(), {})


def run(ctx, cfg):
    from artemis.importance_methods.model_agnostic import PermutationImportance
    n, m = cfg["n"], cfg["m"]
    data = Data(ctx, n, NAMES[:m], cfg.get("spec", "n" * m), index=[4, 9, 4, 1][:n], fixed=True)
    if cfg.get("pool"):
        rng.restrict(lambda k: [tuple(range(k)), tuple(range(1, k)) + (0,), (1, 0) + tuple(range(2, k))])
    if cfg.get("script"):
        rng.script()
    metric = perf.make_metric(ctx, cfg["prob"])
    y = perf.targets(n, cfg["y"], data.index)
    X = data.frame.copy()
    arg, feats = feature_arg(data.names, cfg["features"])
    pi = PermutationImportance(metric)
    res = pi.importance(perf.CodeModel(data), X, y, features=arg,
                        show_progress=cfg.get("show", False), **({"n_repeat": cfg["k"]} if cfg["k"] else {}))
    pf = perf.Perf(ctx, data, metric, range(n), y)
    match_importance(ctx, pf, res, feats, cfg["k"] or 10, cfg["prob"], perf.draws(n), "permutation importance")
    ctx.true(res is pi.feature_importance or res.equals(pi.feature_importance), "returned table is the stored one")
    ctx.true(X.equals(data.frame), "input table unchanged")
    ctx.out("i0", res["Importance"].iloc[0])
