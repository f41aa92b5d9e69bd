"""Summary plot and titles."""
from symx import fitted, plots
from symx.props import C19, C20, C21

BOUNDS = ("result tables of 2 and 3 features (both directions for the methods that report them, features without importance or without "
          "interactions), with and without one-vs-all values, default and given settings of every part; arbitrary non-negative values; "
          "default and given titles of every plot type (3-feature importances ranked in the quick tier)")
STUBS = C19.STUBS
VALIDATE_P = 0.15
BUDGET = {"quick": 300, "thorough": 900}


def configs(tier):
    out = [{"kind": k, "nf": 3, "fix": 1} for k in fitted.KINDS if k != "cmd"] + [{"kind": "hstat", "nf": 3, "fix": 1, "noova": 1}]
    out += [{"kind": "cmd", "nf": 2}, {"kind": "cmd", "nf": 3, "rows": "unused"}, {"kind": "split", "nf": 2, "rows": "both"},
            {"kind": "split", "nf": 2, "imp": "mean_depth"}, {"kind": "split_depth", "nf": 2, "imp": "sum_gain"},
            {"kind": "split", "nf": 3, "rows": "few"}, {"kind": "hstat", "nf": 2, "extra": 1}]
    out += [{"kind": k, "nf": 3, "fix": 1, "kw": 1} for k in ("hstat", "greenwell", "split_depth")] + [{"kind": "cmd", "nf": 2, "kw": 1}]
    out += [{"kind": "hstat", "nf": 3, "fix": 1, "kw": 1, "noova": 1}]
    if tier == "quick":     # importances ranked b > a > c where the table is large
        out = [dict(c, pin=1) if c["nf"] == 3 and c.get("fix") else c for c in out if not (c.get("kw") and c["kind"] == "greenwell")]
    out += [{"kind": k, "titles": 1} for k in fitted.KINDS]
    if tier == "thorough":
        out += [{"kind": k, "nf": 3} for k in fitted.KINDS if k != "cmd"]
        out += [{"kind": k, "nf": 3, "kw": 1} for k in ("hstat", "sejong", "split")]
        out += [{"kind": "split_depth", "nf": 3, "rows": "few", "kw": 1}, {"kind": "cmd", "nf": 3, "rows": "unused", "kw": 1}]
    return out


def titles(ctx, cfg):
    kind = cfg["kind"]
    m = fitted.raw(kind, ["b", "a"])
    v = ctx.real("v")
    ctx.assume(v > 0)
    rows = [("b", "a", v, 2)]
    if kind == "cmd":
        rows.append(("a", "b", v, 1))
    fitted.put(m, rows, importance=[("b", v), ("a", v)], ova=[("b", v), ("a", v)] if kind == "hstat" else None)
    types = ["heatmap", "graph", "bar_chart", "summary"]
    types += {"hstat": ["bar_chart_ova"], "cmd": ["bar_chart_conditional"]}.get(kind, ["lollipop"] if kind.startswith("split") else [])
    vis = ctx.pick("type", types)
    title = ctx.pick("title", [None, "some title", ""])
    with plots.record(ctx) as r:
        m.plot(vis, **({} if title is None else {"title": title}))
    if vis == "summary":
        got = [t for t in r.suptitles()]
    else:
        got = [a.title_text for a in r.axes][:1]
    ctx.same(len(got), 1, "%s has one title" % vis)
    if title is None:
        ctx.true(bool(got and got[0]) and got[0] != "default", "%s has a generated title" % vis)
    elif title:
        ctx.same(got, [title], "the given title of the %s is shown" % vis)
    else:
        ctx.same([t or "" for t in got], [""], "an empty title of the %s is respected" % vis)


def run(ctx, cfg):
    if cfg.get("titles"):
        return titles(ctx, cfg)
    kind = cfg["kind"]
    m, rows, imp, asc, imp_asc = C19.tables(ctx, cfg)
    if cfg.get("pin"):
        ctx.assume(imp["b"] > imp["a"])
        ctx.assume(imp["a"] > imp["B"])
    if cfg.get("noova"):
        m.ova = None
    ova = list(zip(m.ova["Feature"], m.ova[m.method])) if kind == "hstat" and m.ova is not None else None
    thr, width = C20.DEFAULT[kind]
    n, size, k1, k2, kw = 5, 1800, 10, 10, {}
    if cfg.get("kw"):
        thr, width = ctx.real("threshold"), ctx.real("width")
        for x in (thr, width):
            ctx.assume(x > 0)
        if not ctx.symbolic:
            thr, width = float(thr), float(width)
        n, k1, k2 = ctx.pick("sizes", [(1, 2, 1), (2, 1, 2)])
        kw = {"graph": dict(threshold_relevant_interaction=thr, max_edge_width=width, n_highest_with_labels=n),
              "heatmap": {"annot_fmt": ".1f"}, "bar_chart": {"top_k": k1}}
        if ova is not None:
            kw["bar_chart_ova"] = {"top_k": k2}
    with plots.record(ctx) as r:
        m.plot("summary", **kw)
    heat = [a for a in r.axes if r.cells(a)[1]]
    ctx.same(len(heat), 1, "one heatmap")
    C19.check(ctx, r, heat[0], cfg, rows, imp, asc, imp_asc)
    ctx.same(len(r.graphs), 1, "one graph")
    ctx.same(r.graphs[0][0] in heat, False, "heatmap and graph are separate charts")
    C20.check(ctx, r.graphs[0][1], kind, rows, imp, asc, thr, width, n, size)
    bars = [a for a in r.axes if a.bars()]
    ctx.same(len(bars), 1 if ova is None else 2, "bar charts: pairs, and features only with one-vs-all values")
    names = {"%s:%s" % (x[0], x[1]) for x in rows}
    one = [a for a in bars if all(l in names for l, _ in a.bars())]
    allf = [a for a in bars if a not in one]
    ctx.same(len(one), 1, "one bar chart of pairs")
    if one:
        C21.bars_are(ctx, one[0].bars(), [("%s:%s" % (x[0], x[1]), x[2]) for x in rows][:k1], "strongest pairs")
    if ova is not None and allf:
        C21.bars_are(ctx, allf[0].bars(), ova[:k2], "strongest features")
    if ctx.symbolic and cfg.get("kw"):
        ctx.same({k.get("fmt") for _, _, k in r.heat}, {".1f"}, "settings of the heatmap are used")
