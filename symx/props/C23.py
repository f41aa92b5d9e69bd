"""Lollipop plot of boosted trees."""
from symx import fitted, plots, trees
from symx.props.C12 import NAMES, frame

BOUNDS = ("one to three trees with up to 3 splits each (single leaves and stumps included), 2 features; every fraction of trees, "
          "label threshold and maximum depth, labels on and off; arbitrary positive gains; both libraries, three node numberings; twelve trees of which three have splits")
STUBS = ["plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.1


def configs(tier):
    out = []
    full = tier == "thorough"
    for pkg in ("xgboost", "lightgbm"):
        out += [{"pkg": pkg, "sizes": [2], "kw": "default"}, {"pkg": pkg, "sizes": [3], "kw": "depth", "shape": 1},
                {"pkg": pkg, "sizes": [2, 2], "kw": "trees", "root": "b", "shape": 1},
                {"pkg": pkg, "sizes": [1, 1, 2], "kw": "threshold", "root": "b"},
                {"pkg": pkg, "sizes": [1, 0, 1], "kw": "trees"}, {"pkg": pkg, "sizes": [0, 1, 1], "kw": "default"},
                {"pkg": pkg, "sizes": [1, 1, 1, 1, 1, 1], "kw": "default", "root": "b", "fix": 1},
                {"pkg": pkg, "sizes": [2, 1], "kw": "nolabels", "root": "b"},
                {"pkg": pkg, "sizes": [3], "kw": "depth", "root": "b", "order": "gaps"},
                {"pkg": pkg, "sizes": [1] * 5, "kw": "default", "root": "b", "fix": 1},
                {"pkg": pkg, "sizes": [0, 0, 1] + [0] * 7 + [1, 1], "kw": "trees", "root": "b", "order": "gaps"}]
        if full:
            out += [{"pkg": pkg, "sizes": [3], "kw": k} for k in ("default", "depth", "threshold", "trees")]
            out += [{"pkg": pkg, "sizes": [2, 2], "kw": k} for k in ("depth", "threshold", "trees")]
            out += [{"pkg": pkg, "sizes": [2, 2, 1], "kw": "trees", "root": "b"},
                    {"pkg": pkg, "sizes": [4], "kw": "depth", "root": "b"},
                    {"pkg": pkg, "sizes": [1] * 10, "kw": "default", "root": "b", "fix": 1},
                    {"pkg": pkg, "sizes": [1] * 3, "kw": "threshold"}]
    return out


def num(ctx, v):
    return v if ctx.symbolic else float(v)


def isnan(x):
    return isinstance(x, float) and x != x


def same_points(ctx, got, want, what, slack=None):
    """both lists of (tree number, value, name) hold the same points; labels may sit slightly above their point"""
    left = list(got)
    for x, y, name in want:
        here = [p for p in left if p[0] == x]
        hit = [p for p in here if fitted.ident(p[1], y)] or [p for p in here if bool(p[1] == y)]
        if not hit and slack is not None:
            hit = [p for p in here if bool(p[1] >= y) and bool(p[1] <= y + slack)]
        ctx.true(bool(hit), "%s: %s is shown" % (what, name))
        if hit:
            left.remove(hit[0])
    ctx.same([p[0] for p in left], [], "%s: nothing else is shown" % what)


def run(ctx, cfg):
    from artemis.interactions_methods.model_specific import SplitScoreMethod
    roots = []
    for t, k in enumerate(cfg["sizes"]):
        sh = trees.shapes(k)
        if cfg.get("shape") and t:
            sh = sh[:1]
        s = sh[0] if len(sh) == 1 else ctx.pick("shape%d" % t, sh)
        roots.append(trees.build(ctx, t, s, NAMES[:2], root=cfg.get("root")))
    fr = frame(ctx, dict(cfg, kinds=cfg["sizes"] == [2] or cfg["sizes"] == [3]), roots)
    kw = {}
    frac, depth, thr, labels = 0.2, 1, 0.1, True
    how = cfg["kw"]
    if cfg["sizes"] != [2] and how != "default":
        frac = 1.0
    if how == "trees":
        frac = ctx.real("fraction")
        ctx.assume(frac > 0)
        ctx.assume(frac <= 1)
        frac = num(ctx, frac)
    if how == "depth":
        depth = ctx.pick("max depth", [1, 2, 3, 4])
        kw["max_depth"] = depth
    if how == "threshold":
        thr = ctx.real("threshold")
        ctx.assume(thr > 0)
        ctx.assume(thr <= 1)
        thr = num(ctx, thr)
        kw["label_threshold"] = thr
    if how == "nolabels":
        labels = False
        kw["labels"] = False
    if how != "default":
        kw["max_trees"] = frac
    m = SplitScoreMethod()
    m.fit(trees.gb_model(cfg["pkg"], fr))
    n = len(roots)
    if cfg.get("fix"):
        for r, q in zip(roots, roots[1:]):
            ctx.assume(r.gain > q.gain)
    with plots.record(ctx) as r:
        m.plot("lollipop", **kw)
    ctx.same(len(r.axes), 1, "one chart")
    ax = r.axes[0]
    shown = [q for t, q in enumerate(roots) if bool(t < frac * n)]
    rts = [q for q in shown if not q.leaf]
    nodes = [q for q in trees.splits(shown) if 0 < q.depth <= depth]
    pts = [p for p in ax.points() if not isnan(p[1])]
    same_points(ctx, pts, [(q.tree + 1, q.gain, "split on %s at depth %d of tree %d" % (q.feature, q.depth, q.tree))
                           for q in rts + nodes], "points")
    plots.inside(ctx, ax, "x", [p[0] for p in pts], "points are")
    plots.inside(ctx, ax, "y", [p[1] for p in pts], "points are")
    ticks = ax.tick_names("x")
    if ticks is not None:
        for q in rts:
            ctx.same(ticks.get(float(q.tree + 1)), str(q.tree), "tree %d is named at its position" % q.tree)
    line = [p for _, _, v in ax.of("plot") for p in v if not isnan(p[1])]
    same_points(ctx, line, [(q.tree + 1, q.gain, "root of tree %d" % q.tree) for q in rts], "line")
    # labels
    got = [(x, y, str(t)) for t, (x, y) in ax.texts()]
    want = []
    if labels:
        for q in nodes:
            if q.feature != q.parent.feature and bool(q.parent.gain < q.gain):
                want.append((q.tree + 1, q.gain, "%s:%s" % (q.parent.feature, q.feature)))
        top = None
        for q in rts:
            top = q.gain if top is None or bool(q.gain > top) else top
        for q in rts:
            if bool(q.gain >= thr * top):
                want.append((q.tree + 1, q.gain, q.feature))
    for name in sorted({w[2] for w in want} | {g[2] for g in got}):
        same_points(ctx, [g for g in got if g[2] == name], [w for w in want if w[2] == name], "labels %s" % name,
                    top * 0.05 if want else None)
    if pts:
        ctx.out("y0", pts[0][1])
