"""Bar charts."""
from symx import fitted, plots
from symx.props.C19 import tables
from symx.props.C20 import isnan

BOUNDS = ("result tables of 2-4 features (up to 6 pairs, both directions for the methods that report them), every bar limit from 1 to "
          "beyond the table or the default one; arbitrary values incl. ties; 5 patterns of numbers of occurrences with and "
          "without ties for the conditional chart")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.6
COUNTS = [[4, 3, 2, 1, 0], [5, 2, 2, 1, 1, 1], [7, 7, 3, 2, 2, 0], [2], [60, 9, 9, 9, 8, 1]]
LIMIT = {"bar_chart": 10, "bar_chart_ova": 10, "bar_chart_conditional": 15}


def configs(tier):
    out = [{"kind": k, "vis": "bar_chart"} for k in fitted.KINDS] + [{"kind": "hstat", "vis": "bar_chart_ova"},
                                                                     {"kind": "cmd", "vis": "bar_chart_conditional"}]
    out += [{"kind": "hstat", "vis": "bar_chart", "many": 1}, {"kind": "hstat", "vis": "bar_chart_ova", "many": 1},
            {"kind": "cmd", "vis": "bar_chart_conditional", "many": 1}, {"kind": "cmd", "vis": "bar_chart", "rows": "unused"}]
    out += [{"kind": k, "vis": "bar_chart", "names": "colon"} for k in ("hstat", "sejong")]
    return out


def build(ctx, cfg):
    kind, asc = cfg["kind"], cfg["kind"] in fitted.ASC
    if cfg.get("many"):
        names = ["f%d" % i for i in range(12 if cfg["vis"] == "bar_chart_ova" else 6)]
    else:
        names = ["b", "a", "B"]
    m = fitted.raw(kind, names[:3])
    pairs = [(f, g) for i, f in enumerate(names) for g in names[i + 1:]]
    if cfg.get("names") == "colon":
        names = ["a", "a:b", "b:c", "c"]
        pairs = [("a", "b:c"), ("a:b", "c"), ("a", "c")]
    if cfg.get("many"):
        pairs = (pairs + [p[::-1] for p in pairs] if kind == "cmd" else pairs)[:17 if kind == "cmd" else 13]
    elif kind == "cmd":
        pairs = [p for q in pairs for p in (q, q[::-1])]
    elif kind.startswith("split"):
        pairs = pairs[:2] + [pairs[0][::-1]]
    if not cfg.get("many") and ctx.flag("order"):
        pairs = pairs[::-1]
    if kind == "cmd":       # published by number of occurrences first
        vals = [ctx.real("v%d" % i) for i in range(len(pairs))]
        if cfg.get("rows") == "unused":
            pairs = sorted(pairs, key=lambda p: "B" in p)
            vals = [float("nan") if "B" in p else v for p, v in zip(pairs, vals)]
        ns = ctx.pick("occurrences", COUNTS) if cfg["vis"] == "bar_chart_conditional" and not cfg.get("many") else COUNTS[0]
        rows = [(f, g, v, ns[min(i, len(ns) - 1)]) for i, ((f, g), v) in enumerate(zip(pairs, vals))]
    else:
        rows = [(f, g, v) for (f, g), v in zip(pairs, fitted.values(ctx, len(pairs), "v", asc, nonneg=False))]
    imp = [(f, ctx.real("imp[%s]" % f)) for f in names]
    ova = [(f, v) for f, v in zip(names, fitted.values(ctx, len(names), "o", False))] if kind == "hstat" else None
    fitted.put(m, rows, importance=imp, ova=ova)
    return m, rows, dict(imp), ova


def bars_are(ctx, got, want, what):
    ctx.same([l for l, _ in got], [l for l, _ in want], "bars of the %s, strongest first" % what)
    for (l, g), (_, w) in zip(got, want):
        if not isnan(w):
            ctx.eq(g, w, "bar of %s" % l)


def run(ctx, cfg):
    m, rows, imp, ova = build(ctx, cfg)
    vis = cfg["vis"]
    full = [("%s:%s" % (r[0], r[1]), r[2]) for r in rows] if vis != "bar_chart_ova" else list(ova)
    kw = {}
    k = LIMIT[vis]
    if not cfg.get("many"):
        k = ctx.choose("limit", len(full) + 2)
        if k == 0:
            k = LIMIT[vis]
        else:
            kw["top_k"] = k
    with plots.record(ctx) as r:
        m.plot(vis, **kw)
    axes = [a for a in r.axes if a.bars()]
    ctx.same(len(axes), 1, "one chart")
    ax = axes[0]
    want = full[:k]
    plots.inside(ctx, ax, "y" if vis == "bar_chart_conditional" else "x", [v for _, v in ax.bars()], "bars are")
    if vis != "bar_chart_conditional":
        bars_are(ctx, ax.bars(), want, "strongest features" if vis == "bar_chart_ova" else "strongest pairs")
        return
    bars = [(l, v) for l, v in ax.bars() if not isnan(v)]
    bars_are(ctx, bars, want, "first pairs")
    child = {"%s:%s" % (r[0], r[1]): r[1] for r in rows}
    pts = ax.points()
    plots.inside(ctx, ax, "y", [p[1] for p in pts], "markers are")
    ctx.same([p[0] for p in pts], [l for l, _ in want], "one marker per bar")
    for l, y in pts:
        if l in child:
            ctx.eq(y, imp[child[l]], "marker of %s is at the importance of the second feature" % l)
    lines = [x for i in ax.of("vlines") for x in i[2]]
    ctx.same(sorted(x[0] for x in lines), sorted(l for l, _ in want), "one line per bar")
    for l, lo, hi in lines:
        w = dict(want).get(l)
        if w is not None:
            a, b = (lo, hi) if fitted.ident(lo, w) else (hi, lo)
            ctx.eq(a, w, "line of %s starts at the bar" % l)
            ctx.eq(b, imp[child[l]], "line of %s ends at the importance" % l)
    cs = ax.bar_colours()
    count = {"%s:%s" % (r[0], r[1]): r[3] for r in rows}
    ctx.true(all(l in cs for l, _ in want), "every bar has a colour")
    for (l, _), (q, _) in zip(want, want[1:]):
        if l in cs and q in cs:
            if count[l] == count[q]:
                ctx.same(cs[l], cs[q], "equally frequent pairs %s and %s have the same colour" % (l, q))
            else:
                ctx.true(dark(cs[l]) > dark(cs[q]), "%s is more frequent than %s and darker" % (l, q))


def dark(c):
    return 3 - sum(c[:3])
