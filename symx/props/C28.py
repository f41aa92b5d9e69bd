"""Settings of the plots."""
import numpy as np

from symx import fitted, plots, trees
from symx.lib import Data
from symx.plots import rgba
from symx.props import C24

BOUNDS = ("every plot type of every method on 2 features (one boosted tree with 3 splits for the lollipop plot, 2x2 tables for the "
          "profiles and the zenplot); line widths, font and figure sizes and colour bar factors arbitrary positive reals (fonts from 1 point); two values "
          "of every colour, colour map, format, weight, shape and scale, or the documented default; result values arbitrary; default thresholds, widths, numbers of bars, labels, trees and panels")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.5


def configs(tier):
    out = []
    for k in fitted.KINDS:
        out += [{"kind": k, "vis": v} for v in ("heatmap", "graph", "bar_chart")]
    out += [{"kind": "hstat", "vis": "bar_chart_ova"}, {"kind": "cmd", "vis": "bar_chart_conditional"},
            {"kind": "split", "vis": "lollipop"}]
    out += [{"kind": k, "vis": "summary"} for k in ("hstat", "greenwell", "sejong", "split", "cmd")]
    out += [{"vis": "profile"}, {"vis": "single"}, {"vis": "zenplot"}, {"vis": "comparison"}, {"vis": "display"}]
    # numbers and thresholds that are not given
    out += [{"vis": "defaults", "of": "C20", "kind": k, "nf": 3, "fix": 1} for k in ("hstat", "greenwell", "sejong", "split")]
    out += [{"vis": "defaults", "of": "C20", "kind": "cmd", "nf": 2},
            {"vis": "defaults", "of": "C23", "pkg": "xgboost", "sizes": [1] * 5, "kw": "default", "root": "b", "fix": 1},
            {"vis": "defaults", "of": "C23", "pkg": "xgboost", "sizes": [2], "kw": "default"},
            {"vis": "defaults", "of": "C23", "pkg": "xgboost", "sizes": [1] * 6, "kw": "default", "root": "b", "fix": 1},
            {"vis": "defaults", "of": "C23", "pkg": "lightgbm", "sizes": [0, 1, 1], "kw": "default"},
            {"vis": "defaults", "of": "C24", "what": "zen", "m": 5, "kind": "colormesh"},
            {"vis": "defaults", "of": "C21", "kind": "hstat", "plot": "bar_chart", "many": 1},
            {"vis": "defaults", "of": "C21", "kind": "hstat", "plot": "bar_chart_ova", "many": 1},
            {"vis": "defaults", "of": "C21", "kind": "cmd", "plot": "bar_chart_conditional", "many": 1}]
    return out


class Settings:
    def __init__(self, ctx):
        self.ctx, self.kw = ctx, {}
        self.given = ctx.flag("settings given")

    def one(self, name, values, default):
        """a setting out of some values, or its documented default"""
        if not self.given:
            return default
        self.kw[name] = self.ctx.pick(name, values)
        return self.kw[name]

    def num(self, name, default, hi=None, lo=None):
        if not self.given:
            return default
        v = self.ctx.real(name)
        self.ctx.assume(v > 0)
        if hi is not None:
            self.ctx.assume(v <= hi)
        if lo is not None:
            self.ctx.assume(v >= lo)
        self.kw[name] = v if self.ctx.symbolic else float(v)
        return self.kw[name]


def size(ctx, default):
    """(keyword arguments, expected figure size)"""
    if not ctx.flag("figsize"):
        return {}, default
    w, h = ctx.real("width of the figure"), ctx.real("height of the figure")
    for v in (w, h):
        ctx.assume(v > 3)
        ctx.assume(v < 20)
    v = (w, h) if ctx.symbolic else (float(w), float(h))
    return {"figsize": v}, v


def check_size(ctx, r, want, factor=False):
    got = r.figsizes()
    ctx.same(len(got), 1, "one figure")
    if got[0] is None:
        return ctx.true(False, "the size of the figure is set")
    if factor:      # the summary scales the size
        ctx.eq(got[0][0] * want[1], got[0][1] * want[0], "proportions of the figure")
        return
    ctx.eq(got[0][0], want[0], "width of the figure")
    ctx.eq(got[0][1], want[1], "height of the figure")


def heat_settings(s, kind):
    asc = "_r" if kind in fitted.ASC else ""
    return {"inter": s.one("interaction_color_map", ["Blues", "viridis"], "Purples" + asc),
            "imp": s.one("importance_color_map", ["Oranges"], "Greens" + asc),
            "fmt": s.one("annot_fmt", [".1f", ".5f"], ".3f"),
            "lw": s.num("linewidths", 0.5, 5), "lc": s.one("linecolor", ["red"], "white"),
            "shrink": s.num("cbar_shrink", None, 1)}


def check_heat(ctx, r, ax, h):
    cells, _ = r.cells(ax)
    ctx.true(bool(cells), "a heatmap is drawn")
    for (f, g), shown in sorted(cells.items()):
        for x in shown:
            if x[2] is not None:
                ctx.same(x[2], h["imp"] if f == g else h["inter"], "colour map of the %s" % ("importance" if f == g else "interactions"))
    for lw, lc, shrink in r.heat_styles(ax):
        ctx.eq(lw, h["lw"], "width of the lines between cells")
        ctx.same(lc, rgba(h["lc"]), "colour of the lines between cells")
        if h["shrink"] is not None:
            ctx.true(shrink is not None, "colour bar")
            ctx.eq(shrink, h["shrink"], "size factor of the colour bar")
    ctx.true(r.formatted(h["fmt"], ax), "format of the values")


def graph_settings(s):
    return {"edge": s.one("edge_color", ["red"], "rebeccapurple"), "node": s.one("node_color", ["orange"], "green"),
            "fc": s.one("font_color", ["blue"], "#3B1F2B"), "fw": s.one("font_weight", ["normal"], "bold"),
            "fs": s.num("font_size", 10, 40, 1), "size": s.num("node_size", 1800, 3000)}


def check_graph(ctx, g, h, kind):
    ctx.true(bool(g["nodes"]) and bool(g["edges"]), "a graph is drawn")
    ctx.same(set(g["node_colour"].values()), {rgba(h["node"])}, "colour of the nodes")
    ctx.same(set(g["edge_colour"].values()), {rgba(h["edge"])}, "colour of the edges")
    ctx.same(sorted(g["font"]), sorted(g["nodes"]), "every node is labelled")
    for c, w, sz in g["font"].values():
        ctx.same(c, rgba(h["fc"]), "colour of the font")
        ctx.same(str(w), h["fw"], "weight of the font")
        ctx.eq(sz, h["fs"], "size of the font")
    for c, w, _ in g["edge_font"].values():
        ctx.same(c, rgba(h["fc"]), "colour of the font at edges")
        ctx.same(str(w), h["fw"], "weight of the font at edges")
    big = g["nodes"].get("b")
    if big is not None:
        ctx.eq(big, h["size"], "size of the most important node")


def check_bars(ctx, ax, colour):
    cs = ax.bar_colours()
    ctx.true(bool(cs), "bars are drawn")
    ctx.same(set(cs.values()), {rgba(colour)}, "colour of the bars")


def table(ctx, kind):
    m = fitted.raw(kind, ["b", "a"])
    v, w = ctx.real("v"), ctx.real("w")
    for x in (v, w):
        ctx.assume(x > 0)
        ctx.assume(x < 1000)
    rows = [("b", "a", v, 3)]
    if kind == "cmd":
        rows.append(("a", "b", w, 1))
    i, j = ctx.real("imp[b]"), ctx.real("imp[a]")
    ctx.assume(i > j)
    ctx.assume(j > 0)
    ctx.assume(i < 1000)
    fitted.put(m, rows, importance=[("b", i), ("a", j)], ova=[("b", v), ("a", w)] if kind == "hstat" else None)
    return m, rows


def earlier(ctx, s, m, vis):
    """settings of one plot are not remembered by the next"""
    if not s.given and ctx.flag("plotted before with settings"):
        kw = {k: dict(EARLIER[k]) for k in EARLIER if k in ("heatmap", "graph", "bar_chart")} if vis == "summary" else dict(EARLIER[vis])
        with plots.record(ctx):
            m.plot(vis, figsize=(5, 9), **kw)


EARLIER = {"heatmap": {"interaction_color_map": "Reds", "importance_color_map": "Blues", "annot_fmt": ".2f", "linewidths": 2.0,
                       "linecolor": "blue", "cbar_shrink": 0.5},
           "graph": {"edge_color": "red", "node_color": "red", "font_color": "red", "font_weight": "normal", "font_size": 20,
                     "node_size": 500},
           "bar_chart": {"color": "green"}, "bar_chart_ova": {"color": "green"},
           "bar_chart_conditional": {"color": "green", "cmap": "Reds"},
           "lollipop": {"colors": ["red"] * 5, "shapes": ["s"] * 5, "scale": "log"}}


def run(ctx, cfg):
    vis, kind = cfg["vis"], cfg.get("kind")
    if vis == "defaults":
        from symx.props import C20, C21, C23
        return {"C20": C20, "C21": C21, "C23": C23, "C24": C24}[cfg["of"]].run(ctx, dict(cfg, vis=cfg.get("plot")))
    if vis in ("profile", "single", "zenplot", "comparison", "display"):
        return OTHER[vis](ctx, cfg)
    if vis == "lollipop":
        return lollipop(ctx, cfg)
    m, rows = table(ctx, kind)
    fk, fs = size(ctx, (8, 6))
    s = Settings(ctx)
    if vis == "summary":
        parts = {}
        h = heat_settings(s, kind)
        parts["heatmap"], s.kw = s.kw, {}
        g = graph_settings(s)
        parts["graph"], s.kw = s.kw, {}
        c1 = s.one("color", ["red"], "mediumpurple")
        parts["bar_chart"], s.kw = s.kw, {}
        c2 = s.one("color", ["blue"], "mediumpurple")
        parts["bar_chart_ova"] = s.kw
        kw = {k: v for k, v in parts.items() if v and (k != "bar_chart_ova" or kind == "hstat")}
        earlier(ctx, s, m, vis)
        with plots.record(ctx) as r:
            m.plot(vis, **fk, **kw)
        check_size(ctx, r, fs, factor=True)
        heat = [a for a in r.axes if r.cells(a)[1]]
        ctx.same(len(heat), 1, "one heatmap")
        check_heat(ctx, r, heat[0], h)
        ctx.same(len(r.graphs), 1, "one graph")
        check_graph(ctx, r.graphs[0][1], g, kind)
        for a in r.axes:
            if a.bars():
                check_bars(ctx, a, c1 if ":" in str(a.bars()[0][0]) else c2)
        return
    if vis == "heatmap":
        h = heat_settings(s, kind)
    elif vis == "graph":
        h = graph_settings(s)
    elif vis == "bar_chart_conditional":
        h = {"color": s.one("color", ["red"], "black"), "cmap": s.one("cmap", ["Greens"], "Purples")}
    else:
        h = s.one("color", ["red", "blue"], "mediumpurple")
    earlier(ctx, s, m, vis)
    with plots.record(ctx) as r:
        m.plot(vis, **fk, **s.kw)
    check_size(ctx, r, fs)
    if vis == "heatmap":
        check_heat(ctx, r, None, h)
    elif vis == "graph":
        ctx.same(len(r.graphs), 1, "one graph")
        check_graph(ctx, r.graphs[0][1], h, kind)
    else:
        axes = [a for a in r.axes if a.bars()]
        ctx.same(len(axes), 1, "one chart")
        if vis == "bar_chart_conditional":
            conditional(ctx, axes[0], h)
        else:
            check_bars(ctx, axes[0], h)


def conditional(ctx, ax, h):
    import matplotlib
    import seaborn as sns
    ctx.same({c for _, c, _ in ax.point_styles()}, {rgba(h["color"])}, "colour of the markers")
    ctx.same(set(ax.vline_colours()), {rgba(h["color"])[:3]}, "colour of the lines")
    cs = ax.bar_colours()
    top = rgba(matplotlib.colormaps[h["cmap"]](1.0))
    alt = rgba(sns.desaturate(top, 0.75))       # seaborn's default for filled bars
    got = cs.get("b:a")
    ctx.true(got is not None and any(max(abs(x - y) for x, y in zip(got, t)) < 0.02 for t in (top, alt)),
             "the most frequent pair has the darkest colour of the map")


def lollipop(ctx, cfg):
    from artemis.interactions_methods.model_specific import SplitScoreMethod
    n0 = trees.build(ctx, 0, trees.shapes(3)[0], ["b", "a"], root="b")
    fr = trees.xgb_frame([n0], "level")
    m = SplitScoreMethod()
    m.fit(trees.gb_model("xgboost", fr))
    fk, fs = size(ctx, (8, 6))
    s = Settings(ctx)
    cols = s.one("colors", [["red", "blue", "green", "black"]], ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"])
    shapes = s.one("shapes", [["s", "v", "o", "^"]], ["o", ",", "v", "^", "<", ">"])
    scale = s.one("scale", ["log"], "linear")
    earlier(ctx, s, m, "lollipop")
    with plots.record(ctx) as r:
        m.plot("lollipop", max_depth=3, max_trees=1, **fk, **s.kw)
    check_size(ctx, r, fs)
    ax = [a for a in r.axes if a.points()]
    ctx.same(len(ax), 1, "one chart")
    ax = ax[0]
    ctx.same(ax.x_scale(), scale, "scale of the trees")
    styles = {(c, mk) for p, c, mk in ax.point_styles() if not (isinstance(p[1], float) and p[1] != p[1])}
    depths = {q.depth for q in trees.splits([n0])}
    ctx.same(styles, {(rgba(cols[d]), plots.marker_path(shapes[d])) for d in depths}, "colour and shape by depth")
    gains = {}
    for p, c, mk in ax.point_styles():
        for q in trees.splits([n0]):
            if fitted.ident(p[1], q.gain):
                gains.setdefault(q.depth, set()).add((c, mk))
    for d, st in gains.items():
        if ctx.symbolic:        # equal gains at different depths are possible with numbers
            ctx.same(st, {(rgba(cols[d]), plots.marker_path(shapes[d]))}, "colour and shape of depth %d" % d)
    ctx.same(set(ax.line_colours()), {rgba(cols[0])}, "colour of the line through the roots")


def pdp_method(ctx, n, m, **kw):
    data = Data(ctx, n, C24.NAMES[:m], "n" * m, fixed=True, index=[5, 2, 9][:n])
    mt, _ = C24.fit(ctx, {"method": "greenwell"}, data, **kw)
    return mt, data


def mesh_maps(r):
    return {plots.cmap_name(i[2]["kw"].get("cmap")) for a in r.axes for i in a.of("mesh") if i[1] != "contour"}


def profile(ctx, cfg):
    mt, data = pdp_method(ctx, 2, 2)
    fk, fs = size(ctx, (6, 4))
    s = Settings(ctx)
    cm = s.one("cmap", ["viridis", "Blues"], "RdYlBu_r")
    kd = s.one("kind", ["colormesh", "contour"], "colormesh")
    with plots.record(ctx) as r:
        mt.plot_profile("b", "a", **fk, **s.kw)
    check_size(ctx, r, fs)
    ctx.same(mesh_maps(r), {cm}, "colour map")
    kinds = {i[1] for a in r.axes for i in a.of("mesh")}
    ctx.same(bool(kinds & {"contour", "contourf"}), kd == "contour", "kind of the plot")


def single(ctx, cfg):
    mt, data = pdp_method(ctx, 2, 2)
    fk, fs = size(ctx, (6, 4))
    with plots.record(ctx) as r:
        mt.plot_profile("a", **fk)
    check_size(ctx, r, fs)


def zenplot(ctx, cfg):
    mt, data = pdp_method(ctx, 2, 3, value=lambda reps: float(sum((2 ** c) * 1.25 * r for c, r in enumerate(reps))) + float(reps[0] * reps[1]))
    fk, fs = size(ctx, (14, 12))
    s = Settings(ctx)
    cm = s.one("cmap", ["viridis"], "RdYlBu_r")
    kd = s.one("kind", ["colormesh", "contour"], "colormesh")
    with plots.record(ctx) as r:
        mt.plot_zenplot(**fk, **s.kw)
    check_size(ctx, r, fs)
    ctx.same(mesh_maps(r), {cm}, "colour map of every panel")
    kinds = {i[1] for a in r.axes for i in a.of("mesh")}
    ctx.same(bool(kinds & {"contour", "contourf"}), kd == "contour", "kind of the panels")


def comparison(ctx, cfg):
    from artemis.comparison import FeatureInteractionMethodComparator
    m1, _ = table(ctx, "hstat")
    m2, _ = table(ctx, "sejong")
    fk, fs = size(ctx, (8, 6))
    with plots.record(ctx) as r:
        FeatureInteractionMethodComparator().comparison_plot(m1, m2, **fk)
    check_size(ctx, r, fs)


def display(ctx, cfg):
    import sklearn.inspection as insp
    from artemis.visualizer import PartialDependenceVisualizer
    cls = insp.PartialDependenceDisplay
    old = cls.__dict__["from_estimator"]
    cls.from_estimator = classmethod(lambda c, *a, **k: plots.Thing())
    try:
        data = Data(ctx, 2, C24.NAMES[:2], "nn", fixed=True)
        fk, fs = size(ctx, (12, 6))
        with plots.record(ctx) as r:
            PartialDependenceVisualizer(object(), data.frame).plot(["b"], **fk)
    finally:
        cls.from_estimator = old
    check_size(ctx, r, fs)


OTHER = {"profile": profile, "single": single, "zenplot": zenplot, "comparison": comparison, "display": display}
