"""Split score importance."""
from symx import trees
from symx.lib import check_numbered
from symx.props.C12 import make_trees, frame, NAMES

METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth", "mean_weighted_depth", "root_frequency",
           "weighted_root_frequency"]
BOUNDS = ("one tree with up to 3 splits, two trees with up to 2 splits each, three trees of 0-1 splits; every assignment of "
          "2-3 features; gains and covers arbitrary positive reals; xgboost and lightgbm; every metric; direct call (all or "
          "some features) and through the interaction method")


def configs(tier):
    out = []
    full = tier == "thorough"
    for pkg in ("xgboost", "lightgbm"):
        for m in METRICS:
            if pkg == "lightgbm" and "cover" in m:
                continue
            out.append({"pkg": pkg, "metric": m, "sizes": [2], "feats": 3, "via": "direct"})
            out.append({"pkg": pkg, "metric": m, "sizes": [1, 0, 1], "feats": 2, "via": "direct"})
            out.append({"pkg": pkg, "metric": m, "sizes": [1, 2], "feats": 2, "via": "method", "chain": True})
            if m != "weighted_root_frequency":
                out.append({"pkg": pkg, "metric": m, "sizes": [2], "feats": 3, "via": "some"})
            if full or m in ("mean_weighted_depth", "mean_depth", "sum_gain"):
                out.append({"pkg": pkg, "metric": m, "sizes": [3], "feats": 2, "via": "direct", "root": not full})
            if full or "root" in m:
                out.append({"pkg": pkg, "metric": m, "sizes": [1, 1, 1], "feats": 2 if not full else 3, "via": "direct"})
            if m in ("mean_depth", "root_frequency", "mean_weighted_depth"):
                out.append({"pkg": pkg, "metric": m, "sizes": [3], "feats": 2, "via": "method", "root": True, "order": "gaps"})
                out.append({"pkg": pkg, "metric": m, "sizes": [0] * 2 + [1] + [0] * 7 + [2, 2], "feats": 2, "via": "direct",
                            "root": True, "chain": True, "order": "gaps"})
            if m == "sum_gain":
                out.append({"pkg": pkg, "metric": m, "sizes": [2], "feats": 2, "via": "default"})
                out.append({"pkg": pkg, "metric": "mean_gain", "sizes": [2], "feats": 2, "via": "default method"})
            if full:
                out.append({"pkg": pkg, "metric": m, "sizes": [2, 2], "feats": 2, "via": "direct"})
                out.append({"pkg": pkg, "metric": m, "sizes": [2, 2], "feats": 2, "via": "method"})
    return out


def expected(ctx, roots, metric):
    sp = trees.splits(roots)
    tot = None
    if metric == "weighted_root_frequency":
        tot = sum(n.gain for n in sp if n.parent is None)
    out = {}
    for f in sorted({n.feature for n in sp}):
        v = [n for n in sp if n.feature == f]
        top = [n for n in v if n.parent is None]
        if metric.endswith("_gain") or metric.endswith("_cover"):
            x = [getattr(n, metric.split("_")[1]) for n in v]
            out[f] = ctx.mean(x) if metric.startswith("mean") else sum(x)
        elif metric == "mean_depth":
            out[f] = ctx.mean([float(n.depth) for n in v])
        elif metric == "mean_weighted_depth":
            out[f] = sum(n.depth * n.gain for n in v) / sum(n.gain for n in v)
        elif metric == "root_frequency":
            out[f] = float(len(top))
        else:
            out[f] = len(top) * sum(n.gain for n in top) / tot if top else 0.0
    return out


def num(v):
    return 0.0 if isinstance(v, float) and v != v else v


def run(ctx, cfg):
    from artemis.interactions_methods.model_specific import SplitScoreMethod
    from artemis.importance_methods.model_specific import SplitScoreImportance
    from artemis._utilities._handler import GBTreesHandler
    roots = make_trees(ctx, cfg)
    fr = frame(ctx, cfg, roots)
    model = trees.gb_model(cfg["pkg"], fr)
    metric = cfg["metric"]
    want = expected(ctx, roots, metric)
    if cfg["via"] in ("method", "default method"):
        meth = SplitScoreMethod()
        meth.fit(model, **({"importance_selected_metric": metric} if cfg["via"] == "method" else {"show_progress": True}))
        got = meth.feature_importance
    else:
        imp = SplitScoreImportance()
        feats = None
        if cfg["via"] == "some":
            feats = ctx.pick("features", [["a", "c"], ["b"]])
            want = {f: v for f, v in want.items() if f in feats}
        kw = {"selected_metric": metric} if cfg["via"] != "default" else {"show_progress": True}
        got = imp.importance(GBTreesHandler(model), features=feats, **kw)
        ctx.true(got is imp.feature_importance or got.equals(imp.feature_importance), "returned and stored tables agree")
    ctx.true(sorted(got["Feature"]) == sorted(want), "one row per feature used in a split")
    vals = [num(v) for v in got["Importance"]]
    for f, v in zip(got["Feature"], vals):
        if f in want:
            ctx.eq(v, want[f], "importance %s of %s" % (metric, f))
    for x, y in zip(vals, vals[1:]):
        ctx.le(*((x, y) if "depth" in metric else (y, x)), "most important first")
    check_numbered(ctx, got, "importance")
    if vals:
        ctx.out("i0", vals[0])
