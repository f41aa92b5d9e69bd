"""Split score interactions."""
from symx import trees
from symx.lib import check_numbered

NAMES = ["b", "a", "c"]
METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth"]
BOUNDS = ("one tree with up to 3 splits (4 in the thorough tier) and every shape, two trees with up to 2 splits each, "
          "three stumps / single leaves; every assignment of 2-3 features to splits (the root of 3-split trees fixed in the quick tier); gains and covers arbitrary positive "
          "reals; xgboost and lightgbm tables, wrapper and plain booster, handler reused; all metrics; both settings of "
          "the definition filter; three node numberings (with gaps); a tree with 2 splits after ten others; defaults, progress shown")


def configs(tier):
    out = []
    full = tier == "thorough"
    for pkg in ("xgboost", "lightgbm"):
        for only in (True, False):
            for i, m in enumerate(METRICS):
                if pkg == "lightgbm" and "cover" in m:
                    continue
                out.append({"pkg": pkg, "only": only, "metric": m, "sizes": [2], "feats": 3, "kinds": full or m == "mean_gain"})
                if full or (m, only) in (("mean_gain", True), ("mean_depth", False)):
                    out.append({"pkg": pkg, "only": only, "metric": m, "sizes": [3], "feats": 2, "root": not full})
                if full or (m, only) in (("sum_gain", False), ("sum_cover", False), ("mean_cover", True)):
                    out.append({"pkg": pkg, "only": only, "metric": m, "sizes": [2, 2], "feats": 2, "chain": True,
                                "root": not full})
            out.append({"pkg": pkg, "only": only, "metric": "mean_gain", "sizes": [0, 1, 2], "feats": 2})
            out.append({"pkg": pkg, "only": only, "metric": "sum_gain", "sizes": [1, 0, 1], "feats": 2})
            if full:
                out.append({"pkg": pkg, "only": only, "metric": "mean_gain", "sizes": [4], "feats": 2, "chain": True})
                out.append({"pkg": pkg, "only": only, "metric": "mean_gain", "sizes": [3], "feats": 3})
                out.append({"pkg": pkg, "only": only, "metric": "sum_gain", "sizes": [2, 2], "feats": 3, "chain": True})
        out.append({"pkg": pkg, "only": True, "metric": "sum_gain", "sizes": [2], "feats": 2, "history": True})
        out.append({"pkg": pkg, "only": False, "metric": "mean_depth", "sizes": [3], "feats": 2, "root": True,
                    "order": "gaps"})
        out.append({"pkg": pkg, "only": True, "metric": "mean_gain", "sizes": [3], "feats": 2, "root": True,
                    "order": "gaps", "default": True})
        out.append({"pkg": pkg, "only": False, "metric": "sum_gain", "sizes": [0] * 2 + [1] + [0] * 7 + [2, 2], "feats": 2,
                    "root": True, "chain": True, "order": "gaps"})
        out.append({"pkg": pkg, "only": False, "metric": "mean_depth", "sizes": [2], "feats": 2, "history": True})
    return out


def make_trees(ctx, cfg):
    roots = []
    for t, k in enumerate(cfg["sizes"]):
        sh = trees.shapes(k)
        if cfg.get("chain") and k == 2:
            sh = sh[:1] if t else sh
        if cfg.get("chain") and k == 4:
            sh = [s for s in sh if s[0] is None or s[1] is None][:3]
        roots.append(trees.build(ctx, t, ctx.pick("shape%d" % t, sh), NAMES[:cfg["feats"]],
                                 root="b" if cfg.get("root") else None))
    return roots


def frame(ctx, cfg, roots):
    if "order" in cfg:
        order = cfg["order"]
    elif cfg.get("kinds") or cfg["sizes"] == [3]:
        order = ctx.pick("numbering", ["level", "depth"])
    else:
        order = "level"
    if cfg["pkg"] == "lightgbm":
        return trees.lgb_frame(roots, "preorder" if order == "level" else "grown")
    return trees.xgb_frame(roots, order)


def agg(ctx, nodes, metric):
    if metric == "mean_gain":
        return ctx.mean([n.gain for n in nodes])
    if metric == "sum_gain":
        return sum(n.gain for n in nodes)
    if metric == "mean_cover":
        return ctx.mean([n.cover for n in nodes])
    if metric == "sum_cover":
        return sum(n.cover for n in nodes)
    return ctx.mean([float(n.depth) for n in nodes])


def expected(ctx, roots, metric, only):
    groups = {}
    for n in trees.splits(roots):
        if n.parent is None:
            continue
        if only and (n.feature == n.parent.feature or not bool(n.parent.gain < n.gain)):
            continue
        groups.setdefault((n.parent.feature, n.feature), []).append(n)
    return {k: agg(ctx, v, metric) for k, v in groups.items()}


def check_ordered(ctx, ovo, col, want, label, ascending):
    """ordered pairs: each exactly once"""
    got = {}
    for i in range(len(ovo)):
        got.setdefault((ovo["Feature 1"].iloc[i], ovo["Feature 2"].iloc[i]), []).append(ovo[col].iloc[i])
    ctx.true(sorted(got) == sorted(want) and len(ovo) == len(want), label + ": exactly the occurring pairs")
    for k, w in want.items():
        if k in got:
            ctx.eq(got[k][0], w, label + " %s-%s" % k)
    vals = list(ovo[col])
    for x, y in zip(vals, vals[1:]):
        ctx.le(*((x, y) if ascending else (y, x)), label + ": strongest first")
    check_numbered(ctx, ovo, label)


def run(ctx, cfg):
    from artemis.interactions_methods.model_specific import SplitScoreMethod
    from artemis._utilities._handler import GBTreesHandler
    roots = make_trees(ctx, cfg)
    fr = frame(ctx, cfg, roots)
    kind = ctx.pick("kind", ["sklearn", "booster", "handler"]) if cfg.get("kinds") else "sklearn"
    model = trees.gb_model(cfg["pkg"], fr, "booster" if kind == "booster" else "sklearn")
    if kind == "handler" or cfg.get("history"):
        model = GBTreesHandler(model)
    meth = SplitScoreMethod()
    if cfg.get("history"):
        meth.fit(model, interaction_selected_metric="mean_gain" if cfg["metric"] != "mean_gain" else "mean_depth",
                 importance_selected_metric="mean_depth", only_def_interactions=not cfg["only"])
        if ctx.flag("fresh object"):
            meth = SplitScoreMethod()
    if cfg.get("default"):
        meth.fit(model, show_progress=True)
    else:
        meth.fit(model, interaction_selected_metric=cfg["metric"], only_def_interactions=cfg["only"])
    want = expected(ctx, roots, cfg["metric"], cfg["only"])
    check_ordered(ctx, meth.ovo, meth.method, want, "split score " + cfg["metric"], cfg["metric"] == "mean_depth")
    if len(meth.ovo):
        ctx.out("v0", meth.ovo[meth.method].iloc[0])
