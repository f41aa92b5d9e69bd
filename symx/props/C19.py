"""Heatmap of interactions."""
from symx import fitted, plots

BOUNDS = ("result tables of 2 and 3 features in several row orders (both directions and self pairs for the methods that report them, "
          "missing pairs, features without importance or without value), importance in any order; arbitrary non-negative values, one importance of either sign; names that differ in case only")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]


def configs(tier):
    out = [{"kind": k, "nf": 2} for k in fitted.KINDS]
    out += [{"kind": "split", "nf": 2, "rows": "both"}, {"kind": "split_depth", "nf": 2, "rows": "both"},
            {"kind": "split", "nf": 2, "rows": "self"}, {"kind": "split_depth", "nf": 2, "rows": "self"},
            {"kind": "cmd", "nf": 2, "rows": "nan"}, {"kind": "split", "nf": 2, "imp": "root_frequency"},
            {"kind": "split_depth", "nf": 2, "imp": "sum_gain"}, {"kind": "split", "nf": 2, "imp": "mean_depth"},
            {"kind": "split", "nf": 3, "rows": "few"}, {"kind": "hstat", "nf": 2, "extra": 1}, {"kind": "cmd", "nf": 3, "rows": "unused"}]
    out += [{"kind": "hstat", "nf": 3, "fix": 1}, {"kind": "sejong", "nf": 2, "neg": 1}]
    if tier == "thorough":
        out += [{"kind": k, "nf": 3} for k in ("hstat", "greenwell", "sejong", "split", "split_depth", "cmd")]
        out += [{"kind": "split", "nf": 3, "rows": "both"}, {"kind": "split_depth", "nf": 3, "rows": "few"}]
    return out


VALIDATE_P = 0.05


def tables(ctx, cfg):
    """(method, {(row, column): value}, {feature: importance}, importance ascending?)"""
    kind = cfg["kind"]
    names = ["b", "a", "B"][:cfg["nf"]]
    asc = kind in fitted.ASC
    imp_metric = cfg.get("imp")
    m = fitted.raw(kind, names, importance_metric=imp_metric)
    pairs = [(f, g) for i, f in enumerate(names) for g in names[i + 1:]]
    how = cfg.get("rows")
    nan = float("nan")
    if kind == "cmd":
        ps = [p for f, g in pairs for p in ((f, g), (g, f))]
        v = {p: ctx.real("v[%s,%s]" % p) for p in ps}
        for x in v.values():
            ctx.assume(x >= 0)
        if how == "nan":
            v[ps[1]] = nan
        if how == "unused":
            v.update({p: nan for p in ps if "B" in p})
        rows = [(f, g, x, 1 if x == x else 0) for (f, g), x in v.items()]
        if ctx.flag("order"):
            rows = rows[::-1]
    else:
        ps = list(pairs)
        if how == "both":
            ps = [ps[0], ps[0][::-1]] + ps[1:]
        if how == "self":
            ps = [(names[0], names[0])] + ps
        if how == "few":
            ps = ps[:-1]
        if not cfg.get("fix") and ctx.flag("order"):
            ps = ps[::-1]
        if how is None and not cfg.get("fix") and ctx.flag("swap"):
            ps = [(g, f) for f, g in ps]
        rows = [(f, g, x) for (f, g), x in zip(ps, fitted.values(ctx, len(ps), "v", asc, strict="fix" in cfg))]
    imp = {f: ctx.real("imp[%s]" % f) for f in names}
    for f, x in imp.items():
        if f != names[-1] or not cfg.get("neg"):
            ctx.assume(x >= 0)
    ctx.assume(imp[names[0]] + imp[names[1]] > 0)
    listed = list(names)
    if how == "few":
        listed = names[:2]
    if how == "unused":
        imp["B"] = nan
    if cfg.get("extra"):        # a feature that is in no pair
        imp["z"] = ctx.real("imp[z]")
        ctx.assume(imp["z"] >= 0)
        listed.append("z")
    if not cfg.get("fix") and ctx.flag("importance order"):
        listed = listed[::-1]
    fitted.put(m, rows, importance=[(f, imp[f]) for f in listed],
               ova=[(f, ctx.real("ova[%s]" % f)) for f in names] if kind == "hstat" else None)
    imp = {f: imp[f] for f in listed}
    imp_asc = (imp_metric or ("mean_depth" if kind == "split_depth" else "")) in ("mean_depth", "mean_weighted_depth") \
        or kind == "cmd"
    return m, rows, imp, asc, imp_asc


def expected(kind, rows, imp):
    feats = {f for r in rows for f in r[:2]}
    want = {}
    for f in feats:
        if f in imp:
            want[(f, f)] = imp[f]
    off = [r for r in rows if r[0] != r[1]]
    for r in off:
        want.setdefault((r[0], r[1]), r[2])
    if kind != "cmd":
        for r in off:
            want.setdefault((r[1], r[0]), r[2])
    return feats, {k: x for k, x in want.items() if not (isinstance(x, float) and x != x)}


def check(ctx, r, ax, cfg, rows, imp, asc, imp_asc):
    cells, orders = r.cells(ax)
    feats, want = expected(cfg["kind"], rows, imp)
    for rws, cls in orders:
        ctx.same(sorted(rws), sorted(feats), "one row per feature of the table")
        ctx.same(list(rws), list(cls), "rows and columns in the same order")
    ctx.same(all(o == orders[0] for o in orders), True, "diagonal and interactions share the order")
    ctx.same(sorted(cells), sorted(want), "exactly the known cells are filled")
    for k, shown in sorted(cells.items()):
        ctx.same(len(shown), 1, "cell %s,%s is drawn once" % k)
        if k in want:
            ctx.eq(shown[0][0], want[k], ("importance of %s,%s" if k[0] == k[1] else "interaction of %s,%s") % k)
            cm = shown[0][2]
            if cm is not None:
                ctx.same(cm.endswith("_r"), imp_asc if k[0] == k[1] else asc,
                         "darker means stronger (%s)" % ("importance" if k[0] == k[1] else "interaction"))


def run(ctx, cfg):
    m, rows, imp, asc, imp_asc = tables(ctx, cfg)
    with plots.record(ctx) as r:
        m.plot() if cfg["nf"] == 2 else m.plot("heatmap")
    ctx.same(len([a for a in r.axes if r.cells(a)[1]]), 1, "one heatmap")
    check(ctx, r, None, cfg, rows, imp, asc, imp_asc)
