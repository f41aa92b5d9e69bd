"""Comparison plot of two methods."""
import itertools

from symx import fitted, plots
from symx.props.C17 import COMBOS, other_pairs, table

BOUNDS = ("two methods over the same 3 pairs of features (three orders of the second table, either order of the names in a pair, ties) or some common ones, both directions of a pair, pairs without a value, 0-4 labels, with and without the "
          "correlation box, comparator fresh or used before for other methods; arbitrary positive values")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]


def configs(tier):
    out = [{"k": list(c)} for c in COMBOS] + [{"k": list(COMBOS[i]), "box": b} for i, b in ((0, 1), (1, 2), (2, 3))]
    out += [{"k": ["cmd", "split_depth"]}, {"k": ["split_depth", "cmd"]}, {"k": ["split", "greenwell"]},
            {"k": ["hstat", "split"], "both": 1}, {"k": ["sejong", "split_depth"], "both": 1}]
    out += [{"k": ["hstat", "split"], "second": "less"}, {"k": ["split_depth", "greenwell"], "second": "other"},
            {"k": ["hstat", "cmd"], "second": "first"}, {"k": ["hstat", "split"], "second": "other", "box": 1}]
    out += [{"k": ["split", "hstat"], "both": 1, "first": 1}, {"k": ["split_depth", "greenwell"], "both": 1, "first": 1},
            {"k": ["split", "sejong"], "both": 1, "first": 1, "box": 1}]
    out += [{"k": ["hstat", "cmd"], "nan": 1}, {"k": ["cmd", "sejong"], "nan": 1, "first": 1}]
    if tier == "thorough":
        out += [{"k": [a, b], "all": 1} for a in fitted.KINDS for b in fitted.KINDS]
        out += [{"k": [a, b], "box": 3} for a in fitted.KINDS for b in fitted.KINDS]
    return out


VALIDATE_P = 0.03
BUDGET = {"quick": 300, "thorough": 900}


def box(texts):
    out = {}
    for t, _ in texts:
        for line in t.split("\n"):
            for n in ("pearson", "kendall", "spearman"):
                if line.strip().lower().startswith(n):
                    out[n] = line.split("=")[-1].split(":")[-1].strip()
    return out


def isnan(x):
    return isinstance(x, float) and x != x


def run(ctx, cfg):
    from artemis.comparison import FeatureInteractionMethodComparator
    names = ["B", "b", "a"]
    pairs = [(f, g) for i, f in enumerate(names) for g in names[i + 1:]]
    k1, k2 = cfg["k"]
    m1, v1 = table(ctx, k1, pairs, "v", cfg if cfg.get("first") else {}, True)
    pairs2 = other_pairs(pairs, cfg)
    if k2 == "cmd":
        ps = pairs2
    else:
        ps = ctx.pick("second table", [pairs2, pairs2[::-1], pairs2[1:] + pairs2[:1]] if not cfg.get("all") else
                      list(itertools.permutations(pairs2)))
    m2, v2 = table(ctx, k2, list(ps), "w", dict(cfg if not cfg.get("first") else {}, swap=list(ps) == pairs2[::-1]), True)
    for v in list(v1.values()) + list(v2.values()):
        ctx.assume(v > 0)
    pairs = [p for p in pairs if p in pairs2 and p in v1 and p in v2]
    c = FeatureInteractionMethodComparator()
    mode = cfg.get("box", 0)
    n = ctx.pick("labels", [0, 2, 3, 4]) if not mode else 3
    if mode == 3:       # used before, for the same methods in a different state
        other = fitted.put(fitted.raw(k2, names), [(f, g, float(i)) for i, (f, g) in enumerate(pairs)])
        with plots.record(ctx):
            c.summary(m1, other)
    with plots.record(ctx) as r:
        if mode == 2:
            c.summary(m1, m2)
        else:
            c.comparison_plot(m1, m2, n_labels=n, add_correlation_box=bool(mode)) if (n != 3 or mode) else \
                c.comparison_plot(m1, m2)
    ctx.same(len(r.axes), 1, "one plot")
    ax = r.axes[0]
    pts = [p for p in ax.points() if not (isnan(p[0]) or isnan(p[1]))]
    ctx.same(len(pts), len(pairs), "one point per pair")
    # values of the first method are sorted: pair i is at position i unless tied
    strong = lambda x, y: bool(x < y) if k1 in fitted.ASC else bool(x > y)
    left = list(pairs)
    for x, y in pts:
        hit = fitted.match(left, (lambda p: v1[p], x), (lambda p: v2[p], y))
        ctx.true(bool(hit), "every point is at the two values of one pair")
        if hit:
            left.remove(hit[0])
    ctx.same(left, [], "every pair has its point")
    plots.inside(ctx, ax, "x", [p[0] for p in pts], "points are")
    plots.inside(ctx, ax, "y", [p[1] for p in pts], "points are")
    ctx.same((ax.inverted_x, ax.inverted_y), (k1 in fitted.ASC, k2 in fitted.ASC),
             "axes are inverted for the methods whose strong interactions are small")
    ctx.same((ax.x_text, ax.y_text), (m1.method, m2.method), "axes name the methods")
    labels = [(t, xy) for t, xy in ax.texts() if not box([(t, xy)])]
    ctx.same(len(labels), min(n, len(pairs)), "number of labels")
    seen = []
    for t, xy in labels:
        hit = [p for p in pairs if t in ("-".join(p), "-".join(p[::-1]))]
        if ctx.true(bool(hit), "label names a pair") is False or not hit:
            continue
        p = hit[0]
        seen.append(p)
        ctx.eq(xy[0], v1[p], "label %s is at its point (x)" % t)
        ctx.eq(xy[1], v2[p], "label %s is at its point (y)" % t)
    for p in seen:
        for q in pairs:
            if q not in seen:
                ctx.true(not strong(v1[q], v1[p]), "the labelled pairs are the strongest of the first method")
    ctx.same(len(set(seen)), len(seen), "no pair is labelled twice")
    got = box(ax.texts())
    if mode:
        want = {m: c.correlation(m1, m2, m) for m in ("pearson", "kendall", "spearman")}
        ctx.same(sorted(got), sorted(want), "correlation box")
        for m, x in want.items():
            if m in got:
                g = float(got[m])
                ctx.true(g != g if x != x else abs(g - x) <= 0.0006, "%s correlation shown" % m)
        if mode == 2:
            t = dict(zip(c.correlations_df["method"], c.correlations_df["value"]))
            for m, x in want.items():
                ctx.true(m in t and (t[m] == x or t[m] != t[m] and x != x), "%s correlation kept" % m)
    else:
        ctx.same(got, {}, "no correlation box")
