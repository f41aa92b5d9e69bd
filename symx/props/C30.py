"""Nothing that was given or published earlier is modified."""
import numpy as np
import pandas as pd
from symx import fitted, perf, plots, rng, trees
from symx.lib import Data, make_model
from symx.props import C12
from symx.props.C22 import filled, OK

NAMES = ["b", "a", "c"]
BOUNDS = ("fits: every method once and twice, 2 rows x 2 columns of arbitrary cells, categories and "
          "typed columns, 2-3 rows x 2-3 columns of distinct cells (sampled or with some features), all / some features, target as array, series or list; boosted trees and forests of 2 trees with up to 2 "
          "splits; readers: every plot type with and without settings, looking up values, all comparisons, on arbitrary published "
          "values; each reader once and every sequence of two (importances ranked); profiles and zenplots after a concrete fit")
STUBS = ["random generator: arbitrary permutations and samples", "metric: uninterpreted function",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.2
BUDGET = {"quick": 300, "thorough": 900}
PUBLIC = ["ovo", "ova", "feature_importance", "X_sampled", "y_sampled", "features_included", "pairs", "additivity_index",
          "full_result", "method", "metric", "package", "trees_df"]


def configs(tier):
    out = []
    for m in ("hstat", "greenwell", "pdi", "additivity"):
        out += [{"what": m, "spec": "nn", "n": 2}, {"what": m, "spec": "ck", "n": 2, "features": "rev"},
                {"what": m, "spec": "nin", "n": 2, "features": "sub", "fixed": True},
                {"what": m, "spec": "nb", "n": 3, "sample": 2, "fixed": True},
                {"what": m, "spec": "nn", "n": 2, "calc": True}]
    for m in ("sejong", "perm"):
        out += [{"what": m, "spec": "nn", "n": 2, "y": "array"}, {"what": m, "spec": "ck", "n": 2, "y": "series", "features": "rev"},
                {"what": m, "spec": "nin", "n": 3, "y": "series", "features": "sub", "fixed": True}]
    out.append({"what": "sejong", "spec": "nb", "n": 3, "y": "series", "sample": 2, "fixed": True})
    for pkg in ("xgboost", "lightgbm"):
        out += [{"what": "split", "pkg": pkg, "sizes": [2], "feats": 2}, {"what": "split", "pkg": pkg, "sizes": [1, 2], "feats": 2,
                                                                         "chain": True, "root": True}]
    out += [{"what": "forest", "sizes": [2], "nf": 2}, {"what": "forest", "sizes": [2, 1], "nf": 2}]
    for k in fitted.KINDS:
        out += [{"what": "read", "kind": k, "act": a} for a in OK[k] + ["value"]]
        out += [{"what": "read", "kind": k, "act": a} for a in
                ["correlation", "correlations", "comparison_plot", "comparison_box"]]
        out.append({"what": "read2", "kind": k})
    out += [{"what": "profiles", "method": "hstat"}, {"what": "profiles", "method": "greenwell"}]
    return out


# ---------------------------------------------------------------------------------------------- snapshots
def snap(x):
    if isinstance(x, pd.DataFrame):
        return ("frame", [str(c) for c in x.columns], list(x.index), [str(t) for t in x.dtypes],
                [list(x[c]) for c in x.columns])
    if isinstance(x, pd.Series):
        return ("series", list(x.index), str(x.dtype), list(x))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), list(x.ravel()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, pd.Index):
        return ("index", list(x))
    if isinstance(x, dict):
        return ("dict", [(k, snap(x[k])) for k in x])
    return ("value", x)


def same(ctx, a, b, what):
    """two snapshots are equal; numbers by the solver where they are not syntactically equal"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            ctx.true(False, what)
            return
        for x, y in zip(a, b):
            same(ctx, x, y, what)
        return
    if a is b or isinstance(a, str) and isinstance(b, str) and a == b:
        return
    num = lambda v: isinstance(v, (int, float, np.integer, np.floating, fitted.Sym)) and not isinstance(v, bool)
    if num(a) and num(b):
        if not fitted.ident(a, b):
            ctx.eq(a, b, what)
        return
    try:
        ok = bool(a == b) or (a != a and b != b)
    except (TypeError, ValueError):
        ok = False
    ctx.true(ok, what)


class Watch:
    """remembers the content of objects and checks it again later"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, obj):
        self.items.append((what, obj, snap(obj)))

    def results(self, what, m):
        for a in PUBLIC:
            if getattr(m, a, None) is not None:
                self.add("%s (%s)" % (what, a), getattr(m, a))

    def fields(self, what, m):
        """also that the attributes still are what they were"""
        for a in PUBLIC:
            if hasattr(m, a):
                self.items.append(("%s (%s)" % (what, a), (m, a), snap(getattr(m, a))))

    def calculator(self, what, c):
        for d in ("pd_single", "pd_pairs", "pd_minus_single"):
            for k, v in getattr(c, d).items():
                for f, arr in v.items():
                    self.items.append(("%s of a calculator" % what, arr, ("known", list(np.asarray(arr).ravel()))))

    def check(self):
        for what, obj, s in self.items:
            if s[0] == "known":
                now = list(np.asarray(obj).ravel())
                for x, y in zip(s[1], now):
                    if not (isinstance(x, float) and x != x):       # values may be added, not changed
                        same(self.ctx, x, y, what + " is not modified")
            else:
                if isinstance(obj, tuple) and len(obj) == 2 and isinstance(obj[1], str) and obj[1] in PUBLIC:
                    obj = getattr(obj[0], obj[1], None)
                same(self.ctx, s, snap(obj), what + " is not modified")
            self.ctx.true(True, what + " is not modified")


# ---------------------------------------------------------------------------------------------- fits
def agnostic(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
    from artemis.additivity import AdditivityMeter
    from artemis._utilities.pd_calculator import PartialDependenceCalculator
    what, n = cfg["what"], cfg["n"]
    names = NAMES[:len(cfg["spec"])]
    if cfg.get("features") == "rev":
        names = sorted(names)
    data = Data(ctx, n, names, cfg["spec"], index=[5, 2, 9][:n], fixed=cfg.get("fixed", False))
    X = data.frame
    feats = {"rev": names[::-1], "sub": names[:0:-1]}.get(cfg.get("features"))
    w = Watch(ctx)
    w.add("the data", X)
    w.add("the list of features", feats)
    perfm = what in ("sejong", "perm")
    kw = {}
    if perfm:
        rng.script()
        y = perf.targets(n, cfg["y"], data.index)
        w.add("the target", y)
        metric = perf.make_metric(ctx, "regression")
        model = perf.CodeModel(data)
        m = SejongOhMethod(metric) if what == "sejong" else PermutationImportance(metric)
    else:
        model, fn, _ = make_model(ctx, data, "function")
        kw = {"predict_function": fn, "batchsize": 3}
        m = {"hstat": FriedmanHStatisticMethod, "greenwell": GreenwellMethod, "pdi": PartialDependenceBasedImportance,
             "additivity": AdditivityMeter}[what]()
        if cfg.get("calc"):
            c = PartialDependenceCalculator(model, X, fn, 3)
            c.calculate_pd_single()
            kw["pd_calculator"] = c
            w.calculator("value", c)

    def once(f):
        if perfm:
            k = {"n": cfg["sample"]} if cfg.get("sample") else {}
            go = m.fit if what == "sejong" else m.importance
            return go(model, X, y, n_repeat=1, features=f, **k)
        k = dict(kw)
        if cfg.get("sample"):
            k["n"] = cfg["sample"]
        if what == "additivity":
            return m.fit(model, X, **k)
        return (m.importance if what == "pdi" else m.fit)(model, X, features=f, **k)
    first = once(feats)
    w.check()
    if isinstance(first, pd.DataFrame):
        w.add("an earlier returned table", first)
    w.results("an earlier result", m)
    once(names[::-1])
    w.check()
    ctx.out("done", 1.0)


def split(ctx, cfg):
    from artemis.interactions_methods.model_specific import SplitScoreMethod
    from artemis.importance_methods.model_specific import SplitScoreImportance
    from artemis._utilities._handler import GBTreesHandler
    roots = C12.make_trees(ctx, cfg)
    fr = C12.frame(ctx, cfg, roots)
    h = GBTreesHandler(trees.gb_model(cfg["pkg"], fr))
    w = Watch(ctx)
    w.add("the unified trees", h.trees_df)
    m, i = SplitScoreMethod(), SplitScoreImportance()
    m.fit(h)
    w.check()
    w.results("an earlier result", m)
    feats = ["b", "a"]
    w.add("the list of features", feats)
    w.add("an earlier returned table", i.importance(h, features=feats))
    w.check()
    m.fit(h, interaction_selected_metric="mean_depth", importance_selected_metric="mean_depth", only_def_interactions=False)
    i.importance(h, selected_metric="mean_depth")
    w.check()
    ctx.out("done", 1.0)


def forest(ctx, cfg):
    from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod
    names = ["b", "a", "c"][:cfg["nf"]]
    roots = [trees.build_sk(ctx, t, ctx.pick("shape%d" % t, trees.shapes(k)), cfg["nf"]) for t, k in enumerate(cfg["sizes"])]
    model = trees.SkForest(roots, names)
    w = Watch(ctx)
    w.add("the feature names of the model", model.feature_names_in_)
    for e in model.estimators_:
        for a in ("children_left", "children_right", "feature", "threshold"):
            w.add("the trees of the model", getattr(e.tree_, a))
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    w.check()
    w.results("an earlier result", m)
    m.fit(trees.SkForest(roots[:1], names))
    w.check()
    ctx.out("done", 1.0)


# ---------------------------------------------------------------------------------------------- readers
def settings(ctx, act):
    if not ctx.flag("settings"):
        return {}
    one = {"heatmap": {"annot_fmt": ".1f", "linewidths": 1.0}, "bar_chart": {"top_k": 1, "color": "red"},
           "bar_chart_ova": {"top_k": 1, "color": "red"}, "graph": {"n_highest_with_labels": 1, "node_color": "red"},
           "lollipop": {"max_trees": 1.0, "colors": ["red", "blue", "green"], "shapes": ["o", "v", "^"], "max_depth": 2},
           "bar_chart_conditional": {"top_k": 1}}
    if act == "summary":
        return {"heatmap": one["heatmap"], "graph": one["graph"], "bar_chart": one["bar_chart"]}
    return one.get(act, {})


def read(ctx, w, m, pairs, other, act, kw):
    from artemis.comparison import FeatureInteractionMethodComparator
    c = FeatureInteractionMethodComparator()
    with plots.record(ctx):
        if act == "value":
            m.interaction_value(*pairs[0])
        elif act == "correlation":
            c.correlation(m, other)
        elif act == "correlations":
            c.correlations(other, m)
        elif act == "comparison_plot":
            c.comparison_plot(m, other)
        elif act == "comparison_box":
            c.comparison_plot(other, m, add_correlation_box=True)
        else:
            m.plot(act, **kw)


def reader(ctx, cfg):
    kind = cfg["kind"]
    m, pairs, _ = filled(ctx, kind)
    acts = OK[kind] + ["value"]
    if cfg["what"] == "read2":      # ranked importances
        for t, c in ((m.feature_importance, "Importance"), (getattr(m, "ova", None), m.method)):
            v = list(t[c]) if t is not None else []
            for x, y in zip(v, v[1:]):
                ctx.assume(x > y)
    if cfg["what"] == "read2":
        todo = [ctx.pick("first", acts), ctx.pick("second", acts)]
    else:
        todo = [cfg["act"]]
    other = None
    w = Watch(ctx)
    if todo[0] not in acts:
        other = filled(ctx, "greenwell" if kind in ("hstat", "sejong") else "cmd" if kind.startswith("split") else
                       "sejong" if kind == "greenwell" else "split", "o")[0]
        w.fields("results of the other method", other)
    w.fields("results", m)
    if hasattr(m, "pd_calculator"):
        w.calculator("value", m.pd_calculator)
    for act in todo:
        kw = settings(ctx, act) if len(todo) == 1 else {}
        w.add("the given settings", kw)
        read(ctx, w, m, pairs, other, act, kw)
    w.check()
    ctx.out("done", 1.0)


def profiles(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    data = Data(ctx, 2, NAMES, "nnn", fixed=True)
    model, fn, _ = make_model(ctx, data, "function", value=lambda reps: float(sum((i + 1) * (r + 2) ** 2 for i, r in enumerate(reps)) + reps[0] * reps[1]))
    m = GreenwellMethod() if cfg["method"] == "greenwell" else FriedmanHStatisticMethod(normalized=False)
    m.fit(model, data.frame, predict_function=fn)
    v = fitted.values(ctx, 3, "v", False, strict=True)
    fitted.put(m, [(a, b, x) for (a, b), x in zip([("c", "b"), ("a", "b"), ("a", "c")], v)])
    w = Watch(ctx)
    w.add("the data", data.frame)
    w.fields("results", m)
    w.calculator("value", m.pd_calculator)
    with plots.record(ctx):
        for act in (ctx.pick("first", ["single", "pair", "rev", "zen"]), ctx.pick("second", ["zen", "pair"])):
            if act == "single":
                m.plot_profile("a")
            elif act == "pair":
                m.plot_profile("b", "a")
            elif act == "rev":
                m.plot_profile("a", "b")
            else:
                m.plot_zenplot(zenpath_length=ctx.pick("length", [2, 3]))
    w.check()
    ctx.out("done", 1.0)


def run(ctx, cfg):
    what = cfg["what"]
    if what == "split":
        return split(ctx, cfg)
    if what == "forest":
        return forest(ctx, cfg)
    if what in ("read", "read2"):
        return reader(ctx, cfg)
    if what == "profiles":
        return profiles(ctx, cfg)
    return agnostic(ctx, cfg)
