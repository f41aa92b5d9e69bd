"""Conditional minimal depth."""
from symx import trees

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("forests of one tree with up to 4 splits (5 in the thorough tier), two trees with up to 2-3 splits, three trees "
          "with up to 1-2 splits, every shape; the feature of every split is a solver integer over 2-3 features, plus a "
          "feature used nowhere; depth-first and best-first node numbering; objects used before for another forest")


def configs(tier):
    out = []
    full = tier == "thorough"
    for order in ("preorder", "level", "depth"):
        out += [{"sizes": [2], "nf": 2, "extra": 1, "order": order},
                {"sizes": [3], "nf": 3, "extra": 0, "order": order},
                {"sizes": [4], "nf": 2, "extra": 0, "order": order},
                {"sizes": [2, 2], "nf": 2, "extra": 1, "order": order}]
    out += [{"sizes": [0, 1, 2], "nf": 2, "extra": 0, "order": "preorder"},
            {"sizes": [0, 0], "nf": 2, "extra": 0, "order": "preorder"},
            {"sizes": [1, 1, 1], "nf": 2, "extra": 0, "order": "preorder"},
            {"sizes": [2, 2, 2], "nf": 2, "extra": 0, "order": "preorder"},
            {"sizes": [1, 2, 2], "nf": 2, "extra": 0, "order": "level"},
            {"sizes": [2, 1], "nf": 2, "extra": 1, "order": "preorder", "before": 1}]
    if full:
        for order in ("preorder", "level", "depth"):
            out += [{"sizes": [4], "nf": 3, "extra": 0, "order": order},
                    {"sizes": [5], "nf": 2, "extra": 0, "order": order},
                    {"sizes": [3, 2], "nf": 2, "extra": 0, "order": order},
                    {"sizes": [2, 2, 2], "nf": 2, "extra": 0, "order": order}]
    return out


def forest(ctx, cfg):
    roots = [trees.build_sk(ctx, t, ctx.pick("shape%d" % t, trees.shapes(k)), cfg["nf"])
             for t, k in enumerate(cfg["sizes"])]
    cols = NAMES[:cfg["nf"] + cfg["extra"]]
    return roots, cols, trees.SkForest(roots, cols, cfg["order"])


def fit(ctx, cfg, model):
    from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod
    meth = ConditionalMinimalDepthMethod()
    if cfg.get("before"):       # the object was used for another forest
        n = trees.Node(0, 0, None)
        n.feature, n.left, n.right = 2, trees.Node(0, 1, n), trees.Node(0, 1, n)
        meth.fit(trees.SkForest([n], ["a", "d", "b"]))
    meth.fit(model)
    return meth


def highest(root, f):
    """the splits on f closest to the root"""
    v = [n for n in root.walk() if not n.leaf and bool(n.feature == f)]
    if not v:
        return []
    d = min(n.depth for n in v)
    return [n for n in v if n.depth == d]


def tree_value(root, f1, f2):
    """None if the tree does not use both; else (value, f2 occurs below)"""
    top = highest(root, f1)
    if not top or not highest(root, f2):
        return None
    vals, occ = [], 0
    for n in top:
        below = [m.depth - n.depth - 1 for m in n.below() if not m.leaf and bool(m.feature == f2)]
        if below:
            vals.append(min(below))
            occ = 1
        else:
            last = n
            while not last.leaf:
                last = last.right
            vals.append(last.depth - n.depth)
    return min(vals), occ


def run(ctx, cfg):
    roots, cols, model = forest(ctx, cfg)
    meth = fit(ctx, cfg, model)
    ovo, col = meth.ovo, meth.method
    want = {}
    for i, f1 in enumerate(cols):
        for j, f2 in enumerate(cols):
            if i != j:
                vs = [v for v in (tree_value(r, i, j) for r in roots) if v is not None]
                want[(f1, f2)] = (ctx.mean([float(v) for v, _ in vs]) if vs else None, sum(o for _, o in vs))
    got = {}
    for i in range(len(ovo)):
        got.setdefault((ovo["root_variable"].iloc[i], ovo["variable"].iloc[i]), []).append(
            (ovo[col].iloc[i], ovo["n_occurences"].iloc[i]))
    ctx.true(len(ovo) == len(want) and sorted(got) == sorted(want), "every ordered pair of different features once")
    for k, (v, o) in want.items():
        if k not in got:
            continue
        g, go = got[k][0]
        ctx.eq(go, o, "number of trees with %s below %s" % (k[1], k[0]))
        if v is None:
            ctx.true(g is None or g != g, "no depth for a pair that no tree uses")
        else:
            ctx.eq(g, v, "conditional minimal depth of %s below %s" % (k[1], k[0]))
    rows = [(ovo["n_occurences"].iloc[i], ovo[col].iloc[i]) for i in range(len(ovo))]
    for (o1, v1), (o2, v2) in zip(rows, rows[1:]):
        ctx.le(o2, o1, "more frequent pairs first")
        if o1 == o2 and v1 is not None and v2 is not None and v1 == v1 and v2 == v2:
            ctx.le(v1, v2, "equally frequent pairs: smaller depth first")
