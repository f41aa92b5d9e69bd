"""Requests that cannot be served."""
from symx import fitted, plots, trees

BOUNDS = ("every method; every plot type and three unknown ones; every metric of the two gradient boosting packages; models of 5 "
          "other packages; before any fit, after a fit with arbitrary values, and after a rejected refit")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.3

TYPES = ["summary", "graph", "bar_chart_ova", "bar_chart", "heatmap", "lollipop", "bar_chart_conditional"]
COMMON = ["summary", "graph", "bar_chart", "heatmap"]
OK = {"hstat": COMMON + ["bar_chart_ova"], "greenwell": COMMON, "sejong": COMMON, "split": COMMON + ["lollipop"],
      "split_depth": COMMON + ["lollipop"], "cmd": COMMON + ["bar_chart_conditional"]}
METRICS = ["mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth"]
IMPORTANCE = METRICS + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]


def configs(tier):
    out = [{"what": "unfitted", "kind": k} for k in fitted.KINDS] + [{"what": "types", "kind": k} for k in fitted.KINDS]
    out += [{"what": "no ova"}, {"what": "model"}, {"what": "importance alone"}]
    out += [{"what": "metric", "before": b} for b in (None, "split", "split_depth")]
    return out


def empty(kind):
    from artemis.interactions_methods import model_agnostic as ma, model_specific as ms
    if kind == "hstat":
        return ma.FriedmanHStatisticMethod()
    if kind == "greenwell":
        return ma.GreenwellMethod()
    if kind == "sejong":
        from artemis._utilities.performance_metrics import MSE
        return ma.SejongOhMethod(MSE())
    return ms.ConditionalMinimalDepthMethod() if kind == "cmd" else ms.SplitScoreMethod()


def filled(ctx, kind, tag="v"):
    asc = kind in fitted.ASC
    m = fitted.raw(kind, ["a", "b"])
    v = fitted.values(ctx, 2, tag, asc, strict=True)
    ctx.assume((v[0] if asc else v[1]) > 0)
    ctx.assume(v[0 if not asc else 1] < 1)
    pairs = [("b", "a"), ("a", "b")] if kind.startswith("split") or kind == "cmd" else [("a", "b"), ("b", "c")]
    imp = [(f, ctx.real(tag + "imp" + f)) for f in sorted({f for p in pairs for f in p})]
    for _, x in imp:
        ctx.assume(x > 0)
    fitted.put(m, [(f, g, x, 1) if kind == "cmd" else (f, g, x) for (f, g), x in zip(pairs, v)], importance=imp,
               ova=[(f, ctx.real(tag + "ova" + f)) for f, _ in imp] if kind == "hstat" else None)
    return m, pairs, v


def refused(ctx, exc, fn, label):
    st, e = ctx.call(fn)
    ctx.true(st == "raise" and type(e).__name__ == exc, "%s is refused with %s (got %s)" % (
        label, exc, type(e).__name__ if st == "raise" else "a result") if not ctx.symbolic else "%s is refused" % label)


def lgb():
    r = fitted._tree(("b", "a"), (3.0, 4.0))
    return trees.gb_model("lightgbm", trees.lgb_frame([r]))


def foreign(module, name):
    cls = type(name, (), {"predict": lambda self, X: [0.0] * len(X), "trees_to_dataframe": lambda self: None})
    cls.__module__ = module
    return cls()


def kept_splits(ctx, m):
    """the plot of the trees still shows the model of the earlier fit: root a (gain 1) and below it b (gain 2)"""
    with plots.record(ctx) as r:
        m.plot("lollipop", max_trees=1.0, label_threshold=0.0)
    ctx.same(sorted(str(t[0]) for t in r.axes[0].texts()), ["a", "a:b"], "the earlier trees are still plotted")


def run(ctx, cfg):
    from artemis.comparison import FeatureInteractionMethodComparator
    what = cfg["what"]
    if what == "unfitted":
        kind = cfg["kind"]
        m = empty(kind)
        other = filled(ctx, ctx.pick("other", ["hstat", "cmd"]))[0]
        c = FeatureInteractionMethodComparator()
        acts = {"plot " + t: (lambda t=t: m.plot(t)) for t in TYPES}
        acts.update({"plot": lambda: m.plot(), "value": lambda: m.interaction_value("a", "b"),
                     "correlation first": lambda: c.correlation(m, other), "correlation second": lambda: c.correlation(other, m),
                     "correlations": lambda: c.correlations(other, m), "comparison first": lambda: c.comparison_plot(m, other),
                     "comparison second": lambda: c.comparison_plot(other, m), "summary first": lambda: c.summary(m, other),
                     "summary second": lambda: c.summary(other, m)})
        if ctx.symbolic:
            name = ctx.pick("act", sorted(acts))
        else:
            name = sorted(acts)[ctx.choose("act", len(acts))]
        with plots.record(ctx):
            refused(ctx, "MethodNotFittedException", acts[name], name + " before fit")
        return
    if what == "types":
        kind = cfg["kind"]
        m, pairs, v = filled(ctx, kind)
        t = ctx.pick("type", TYPES + ["", "Heatmap", "bar_chart_ovo"])
        with plots.record(ctx) as r:
            if t in OK[kind]:
                st, e = ctx.call(m.plot, t)
                if st == "raise" and ctx.symbolic:
                    raise e     # decided by replay
                ctx.same(st, "ok", "plot type %s" % t)
            else:
                refused(ctx, "VisualizationNotSupportedException", lambda: m.plot(t), "plot type %r" % t)
        if t in OK[kind]:
            ctx.true(len(r.axes) >= 1, "something is drawn")
        ctx.eq(m.interaction_value(*pairs[0]), v[0] if kind != "cmd" else (v[0] + v[1]) / 2, "results are kept")
        return
    if what == "no ova":
        from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod
        import numpy as np
        import pandas as pd
        m = FriedmanHStatisticMethod()
        m.fit(fitted._Sum(), pd.DataFrame({"a": np.array([0.0, 1.0]), "b": np.array([1.0, 2.0])}), calculate_ova=False)
        v = ctx.real("v")
        ctx.assume(v > 0)
        fitted.put(m, [("b", "a", v)], importance=[("a", 1.0), ("b", 0.5)])
        ctx.true(m.ova is None, "no one-vs-all values")
        t = ctx.pick("type", OK["hstat"])
        with plots.record(ctx) as r:
            if t == "bar_chart_ova":
                refused(ctx, "MethodNotFittedException", lambda: m.plot(t), "one-vs-all chart without one-vs-all values")
            else:
                m.plot(t)
        if t != "bar_chart_ova":
            ctx.true(len(r.axes) >= 1, "something is drawn")
        if t in ("summary", "bar_chart"):
            b = [a.bars() for a in r.axes if a.bars()]
            ctx.same([x[0] for y in b for x in y], ["b:a"], "pairs only")
        return
    if what == "model":
        from artemis._utilities._handler import GBTreesHandler
        mod = ctx.pick("model", ["sklearn.ensemble", "catboost.core", "myxgboost.core", "__main__", "light.gbm.lightgbm"])
        x = foreign(mod, ctx.pick("class", ["XGBRegressor", "Booster"]))
        how = ctx.pick("how", ["fit", "handler", "used handler"])
        if how == "handler":
            refused(ctx, "ModelNotSupportedException", lambda: GBTreesHandler(x), "model of " + mod)
        elif how == "used handler":
            g = ctx.real("gain")
            ctx.assume(g > 1)
            h = GBTreesHandler(trees.gb_model("xgboost", trees.xgb_frame([fitted._tree(("a", "b"), (1.0, g))], "level")))
            refused(ctx, "ModelNotSupportedException", lambda: h.unify_structure(x), "model of " + mod)
            m = empty("split")
            m.fit(h, interaction_selected_metric="sum_gain", importance_selected_metric="mean_depth")
            ctx.eqs(list(m.ovo[m.method]), [g], "the handler still describes the earlier model")
            ctx.eqs(list(m.feature_importance["Importance"]), [0, 1], "the handler still describes the earlier model")
            m.fit(h, interaction_selected_metric="mean_depth", only_def_interactions=False)
            ctx.same([float(d) for d in m.ovo[m.method]], [1.0], "the handler still describes the earlier model")
        else:
            m, pairs, v = filled(ctx, ctx.pick("before", ["split", "split_depth"]))
            refused(ctx, "ModelNotSupportedException", lambda: m.fit(x, interaction_selected_metric=ctx.pick("metric", METRICS)),
                    "model of " + mod)
            ctx.eqs(list(m.ovo[m.method]), v, "earlier results are kept")
            ctx.eq(m.interaction_value(*pairs[0]), v[0], "earlier values are kept")
            kept_splits(ctx, m)
        return
    if what == "importance alone":
        from artemis.importance_methods.model_specific import MinimalDepthImportance
        refused(ctx, "FeatureImportanceWithoutInteractionException",
                lambda: MinimalDepthImportance().importance(trees.SkForest([fitted._tree((0, 1))], ["a", "b"]), None),
                "importance without interactions")
        return
    # metrics
    i, j = ctx.pick("interactions", METRICS), ctx.pick("importance", IMPORTANCE)
    before = cfg["before"]
    if before:
        m, pairs, v = filled(ctx, before)
    else:
        m = empty("split")
    if "cover" in i or "cover" in j:
        refused(ctx, "MetricNotSupportedException", lambda: m.fit(lgb(), interaction_selected_metric=i,
                                                                  importance_selected_metric=j), "metric %s/%s" % (i, j))
        if before:
            ctx.eqs(list(m.ovo[m.method]), v, "earlier results are kept")
            ctx.eq(m.interaction_value(*pairs[0]), v[0], "earlier values are kept")
            with plots.record(ctx) as r:
                m.plot("heatmap")
            for k, c in r.cells()[0].items():
                if k[0] != k[1]:
                    ctx.same(c[0][2].endswith("_r"), before == "split_depth", "earlier order is kept")
            kept_splits(ctx, m)
        else:
            ctx.true(m.ovo is None, "nothing is published")
    else:
        m.fit(lgb(), interaction_selected_metric=i, importance_selected_metric=j)
        ctx.same(len(m.ovo), 1, "supported metric")
