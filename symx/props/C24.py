"""Partial dependence profiles and zenplot."""
from itertools import combinations, permutations

import numpy as np

from symx import fitted, plots
from symx.lib import Data, PD, make_model

NAMES = ["b", "a", "c", "d", "e"]
BOUNDS = ("profiles: 2-3 rows x 2 columns with arbitrary numeric cells or categories and an arbitrary prediction function; zenplot: 2 rows x "
          "3 columns with an arbitrary additive prediction function, 2 rows x 4-5 columns with a fixed one, every ranking of the pairs "
          "(first pair fixed for 4 columns in the quick tier, three rankings for 5), every path length from 1 to beyond the number of pairs, both kinds of panels, once and twice, followed by the profile of every pair")
STUBS = ["plotting back ends record what they are given; replays draw with the real ones and read the figure back",
         "zenplot: interaction strengths are replaced by arbitrary ones after a real fit",
         "scikit-learn's partial dependence display records its arguments"]
VALIDATE_P = 0.1


def configs(tier):
    full = tier == "thorough"
    out = []
    for kind in ("colormesh", "contour"):
        out += [{"what": "pair", "n": 2, "spec": "nn", "kind": kind, "how": "predict", "method": "greenwell"},
                {"what": "pair", "n": 3, "spec": "nn", "kind": kind, "how": "function", "fixed": True, "method": "greenwell"},
                {"what": "pair", "n": 3, "spec": "nn", "kind": kind, "how": "function", "fixed": True},
                {"what": "zen", "m": 3, "kind": kind}, {"what": "zen", "m": 2, "kind": kind},
                {"what": "zen", "m": 4, "kind": kind, "first": not full}, {"what": "zen", "m": 5, "kind": kind}]
    out += [{"what": "single", "n": 3, "spec": "nn", "how": "predict"}, {"what": "single", "n": 3, "spec": "cn", "how": "proba"},
            {"what": "pair", "n": 3, "spec": "cn", "kind": "colormesh", "how": "function", "fixed": True},
            {"what": "default", "n": 2, "spec": "nn", "how": "function"}, {"what": "display"}]
    if full:
        out += [{"what": "pair", "n": 3, "spec": s, "kind": k, "how": "function"} for s in ("nn", "cn", "cc")
                for k in ("colormesh", "contour")]
        out += [{"what": "single", "n": 4, "spec": "nn", "how": "function"}]
    return out


def fit(ctx, cfg, data, **kw):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    model, fn, pred = make_model(ctx, data, cfg.get("how", "function"), **kw)
    if cfg.get("method") == "greenwell":
        m = GreenwellMethod()
        m.fit(model, data.frame, predict_function=fn)
    else:
        m = FriedmanHStatisticMethod(normalized=False)
        m.fit(model, data.frame, predict_function=fn, calculate_ova=False)
    return m, pred


def eq_val(ctx, a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        ctx.same(str(a), str(b), what)
    else:
        ctx.eq(a, b, what)


def grid_is(ctx, ref, data, item, fx, fy, what, every=False):
    """the panel shows the pair's partial dependence: value at (x, y) belongs to these values of the two features"""
    d = item[2]
    cx, cy = data.names.index(fx), data.names.index(fy)
    ux, uy = ref.uniq(cx), ref.uniq(cy)
    xs, ys = plots.seq(d["x"]), plots.seq(d["y"])
    c = np.asarray(d["c"], dtype=object)
    ctx.same((len(xs), len(ys)), (len(ux), len(uy)), what + ": every distinct value once per axis")
    ctx.same(c.shape, (len(ys), len(xs)), what + ": one value per cell")
    if (len(xs), len(ys)) != (len(ux), len(uy)) or c.shape != (len(ys), len(xs)):
        return
    for i, r in enumerate(ux):
        eq_val(ctx, xs[i], data.cells[fx][r], what + ": values of %s along x" % fx)
    for j, r in enumerate(uy):
        eq_val(ctx, ys[j], data.cells[fy][r], what + ": values of %s along y" % fy)
    for i, r in enumerate(ux):
        for j, s in enumerate(uy):
            v = c[j, i]
            if isinstance(v, float) and v != v:     # left blank: only where the method had no need of the value
                ctx.true(not every and not any(data.rep(cx, data.cells[fx][q]) == r and data.rep(cy, data.cells[fy][q]) == s
                                               for q in ref.rows), what + ": value at an observed combination is shown")
            else:
                ctx.eq(v, ref({cx: r, cy: s}), what + ": partial dependence on %s and %s" % (fx, fy))


def pair_profile(ctx, mt, ref, data, pair, kw, every):
    with plots.record(ctx) as r:
        mt.plot_profile(pair[0], pair[1], **kw)
    axes = [a for a in r.axes if a.of("mesh")]
    ctx.same(len(axes), 1, "one profile")
    ax = axes[0]
    ctx.same(sorted([str(ax.x_text), str(ax.y_text)]), sorted(pair), "both features are named")
    if ax.x_text not in pair or ax.y_text not in pair:
        return
    kinds = {i[1] for i in ax.of("mesh")}
    ctx.true("contourf" in kinds or "contour" in kinds if kw.get("kind") == "contour" else bool({"pcolormesh", "pcolor"} & kinds),
             "kind of plot")
    for it in ax.of("mesh"):
        grid_is(ctx, ref, data, it, ax.x_text, ax.y_text, "profile", every)


def profile(ctx, cfg):
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, NAMES[:m], cfg["spec"], fixed=cfg.get("fixed", False), index=[5, 2, 9, 0][:n], distinct=cfg["what"] != "single")
    mt, pred = fit(ctx, cfg, data)
    ref = PD(ctx, pred, data)
    if cfg["what"] == "single":
        f = ctx.pick("feature", data.names)
        with plots.record(ctx) as r:
            mt.plot_profile(f)
        axes = [a for a in r.axes if a.of("plot")]
        ctx.same(len(axes), 1, "one profile")
        pts = [p for _, _, v in axes[0].of("plot") for p in v]
        plots.inside(ctx, axes[0], "y", [p[1] for p in pts], "profile is")
        u = ref.uniq(data.names.index(f))
        ctx.same(len(pts), len(u), "every distinct value once")
        ctx.same(axes[0].x_text, f, "feature is named")
        for (x, y), q in zip(pts, u):
            eq_val(ctx, x, data.cells[f][q], "values of the feature along x")
            ctx.eq(y, ref({data.names.index(f): q}), "partial dependence on %s" % f)
        return
    pair = data.names[:2]
    if ctx.flag("reversed"):
        pair = pair[::-1]
    kw = {} if cfg["what"] == "default" else {"kind": cfg["kind"]}
    pair_profile(ctx, mt, ref, data, pair, kw, cfg.get("method") == "greenwell")


def zenplot(ctx, cfg):
    m = cfg["m"]
    names = NAMES[:m]
    data = Data(ctx, 2, names, "n" * m, fixed=True, index=[5, 2])
    if m >= 4:      # distinct partial dependence everywhere, fixed
        mt, pred = fit(ctx, cfg, data, value=lambda reps: float(sum((2 ** c) * 1.25 * r for c, r in enumerate(reps))))
    else:
        mt, pred = fit(ctx, cfg, data, additive=True)
        for c in range(m):
            ctx.assume(ctx.real("p[%d:0]" % c) < ctx.real("p[%d:1]" % c))
    ref = PD(ctx, pred, data)
    pairs = [tuple(p) for p in mt.ovo[["Feature 1", "Feature 2"]].values]
    pairs = sorted(pairs, key=lambda p: [names.index(f) for f in p])
    ids = list(range(len(pairs)))
    perms = list(permutations(ids)) if m < 5 else [ids, ids[::-1], ids[4:] + ids[:4]]
    if cfg.get("first"):
        perms = [q for q in perms if q[0] == 1]
    q = perms[0] if len(perms) == 1 else ctx.pick("ranking", perms)
    order = [pairs[i] for i in q]
    vals = fitted.values(ctx, len(order), "v", False, strict=True)
    strength = {frozenset(p): v for p, v in zip(order, vals)}
    fitted.put(mt, [(f, g, v) for (f, g), v in zip(order, vals)])
    kw = {"kind": cfg["kind"]}
    if m == 5:
        length = ctx.pick("length", [None, 8])
    elif m == 4:
        length = ctx.pick("length", [None, 2, 3, 4, 5, 6])
    else:
        length = ctx.choose("length", len(pairs) + 3) or None
    if length is not None:
        kw["zenpath_length"] = length
    else:
        length = 7
    for _ in range(2 if m == 3 and length == 3 else 1):     # plotting does not change what later plots show
        with plots.record(ctx) as r:
            mt.plot_zenplot(**kw)
    if m < 4:
        for p in pairs:
            pair_profile(ctx, mt, ref, data, p, {"kind": cfg["kind"]}, False)
    panels = [a for a in r.axes if a.of("mesh")]
    k = min(length, len(pairs))
    ctx.same(len(panels), k, "number of panels")
    at = {a.cell: a for a in panels}
    ctx.same(len(at), len(panels), "panels do not overlap")
    ctx.same(all(c is not None for c in at), True, "panels are on the grid")
    if len(at) != len(panels) or None in at:
        return
    walk = sorted(at)
    ctx.same(walk, [((i + 1 - 1) // 2, (i + 1) // 2) for i in range(len(panels))], "panels form a staircase")
    seen, lo_hi = [], None
    feats = []
    for cell in walk:
        a = at[cell]
        below, right = at.get((cell[0] + 1, cell[1])), at.get((cell[0], cell[1] + 1))
        fx = a.title_text or (below.title_text if below is not None else None)
        fy = a.y_text or (right.y_text if right is not None else None)
        what = "panel %d,%d" % cell
        ok = fx in names and fy in names and fx != fy
        ctx.true(ok, what + ": both axes are named by it or its neighbour")
        if not ok:
            return
        feats.append((fx, fy))
        for it in a.of("mesh"):
            grid_is(ctx, ref, data, it, fx, fy, what)
            if it[1] == "contour":      # black lines
                continue
            lims = (it[2]["kw"].get("vmin"), it[2]["kw"].get("vmax"))
            ctx.true(lims[0] is not None and lims[1] is not None, what + ": colour limits are given")
            if lims[0] is None or lims[1] is None:
                continue
            if lo_hi is None:
                lo_hi = lims
            ctx.eq(lims[0], lo_hi[0], "panels share the colour scale")
            ctx.eq(lims[1], lo_hi[1], "panels share the colour scale")
            for v in np.asarray(it[2]["c"], dtype=object).flat:
                if isinstance(v, float) and v != v:
                    continue
                ctx.le(lims[0], v, what + ": value is within the colour scale")
                ctx.le(v, lims[1], what + ": value is within the colour scale")
        seen.append(frozenset((fx, fy)))
    ctx.same(len(set(seen)), len(seen), "every panel shows a different pair")
    ctx.same(seen[0], frozenset(order[0]), "the path starts with the strongest pair")
    pool = [frozenset(p) for p in order[:k + 1]]
    ctx.true(all(s in pool for s in seen), "only the strongest pairs are shown")
    for i in range(1, len(seen)):
        left = [p for p in pool if p not in seen[:i]]
        prev = feats[i - 1]
        if i == 1:      # the path may leave the first pair through the feature the two panels share
            free = prev[1]
        else:
            free = prev[0] if i % 2 == 0 else prev[1]
        cont = [p for p in left if free in p]
        want = (cont or left)[0]
        ctx.same(seen[i], want, "panel %d continues with the strongest pair left%s" % (i, " that shares the feature" if cont else ""))


def display(ctx, cfg):
    import sklearn.inspection as insp
    from artemis.visualizer import PartialDependenceVisualizer
    import artemis.visualizer._pdp_visualizer as mod
    got = []

    class Rec:
        @classmethod
        def from_estimator(cls, estimator, X, features, **kw):
            got.append((estimator, X, features, kw))
            return plots.Thing()
    cls = insp.PartialDependenceDisplay
    old = cls.__dict__["from_estimator"]
    cls.from_estimator = Rec.from_estimator
    try:
        data = Data(ctx, 2, NAMES[:2], "nn")
        model = object()
        feats = ctx.pick("features", [["b"], ["a", "b"], [("b", "a")], [0, 1]])
        kw = {}
        if ctx.flag("resolution"):
            kw["grid_resolution"] = ctx.int("grid", 2, 50)
        if ctx.flag("title"):
            kw["title"] = "t"
        if ctx.flag("other"):
            kw["percentiles"] = (ctx.real("q"), 1)
        with plots.record(ctx) as r:
            PartialDependenceVisualizer(model, data.frame).plot(feats, **kw)
    finally:
        cls.from_estimator = old
    ctx.same(len(got), 1, "one display is drawn")
    e, X, f, k = got[0]
    ctx.same(e is model, True, "the given model is shown")
    ctx.same(X is data.frame or list(X.columns) == list(data.frame.columns) and len(X) == 2, True, "the given data is used")
    ctx.same(list(f), list(feats), "the given features are shown")
    ctx.eq(k.get("grid_resolution"), kw.get("grid_resolution", 100), "grid resolution")
    ctx.same(k.get("percentiles"), kw.get("percentiles"), "other settings are passed on")
    ctx.same(k.get("ax") is not None, True, "drawn in the titled chart")
    ctx.same([a.title_text for a in r.axes if a.title_text], [kw.get("title", "Partial Dependence")], "title")


def run(ctx, cfg):
    {"zen": zenplot, "display": display}.get(cfg["what"], profile)(ctx, cfg)
