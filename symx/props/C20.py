"""Interaction graph."""
from symx import fitted, plots
from symx.props.C19 import tables

BOUNDS = ("result tables of 2 and 3 features in several row orders (both directions for the methods that report them, missing pairs, "
          "features without importance or without interactions), default and given threshold, width, node size and number of labels; "
          "arbitrary non-negative values, one importance of either sign; names that differ in case only")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "plotting back ends record what they are given; replays draw with the real ones and read the figure back"]
VALIDATE_P = 0.05

# documented defaults: (threshold, width)
DEFAULT = {"hstat": (0.05, 20), "greenwell": (0.05, 20), "sejong": (0.1, 20), "split": (0.1, 20), "split_depth": (0.1, 20),
           "cmd": (0.6, 3)}


def configs(tier):
    out = [{"kind": k, "nf": 3, "fix": 1} for k in ("hstat", "greenwell", "sejong", "split", "split_depth")]
    out += [{"kind": k, "nf": 3, "fix": 1, "kw": 1} for k in ("hstat", "split", "split_depth")]
    out += [{"kind": "cmd", "nf": 2}, {"kind": "cmd", "nf": 2, "kw": 1}, {"kind": "cmd", "nf": 2, "rows": "nan"},
            {"kind": "cmd", "nf": 3, "rows": "unused"}, {"kind": "split", "nf": 2, "rows": "both"},
            {"kind": "split", "nf": 3, "rows": "few"}, {"kind": "hstat", "nf": 2, "extra": 1},
            {"kind": "split_depth", "nf": 2, "rows": "both"}, {"kind": "hstat", "nf": 3}, {"kind": "split_depth", "nf": 3},
            {"kind": "sejong", "nf": 3, "fix": 1, "neg": 1}]
    if tier == "thorough":
        out += [{"kind": k, "nf": 3} for k in fitted.KINDS if k != "cmd"]
        out += [{"kind": k, "nf": 3, "kw": 1} for k in ("hstat", "split", "split_depth")]
        out += [{"kind": "split_depth", "nf": 3, "rows": "few", "kw": 1}, {"kind": "split", "nf": 3, "rows": "both", "kw": 1},
                {"kind": "cmd", "nf": 3, "rows": "unused", "kw": 1}]
    return out


def isnan(x):
    return isinstance(x, float) and x != x


def run(ctx, cfg):
    m, rows, imp, asc, _ = tables(ctx, cfg)
    kind = cfg["kind"]
    thr, width = DEFAULT[kind]
    n, size, kw = 5, 1800, {}
    if cfg.get("kw"):
        thr, width, n, size = ctx.real("threshold"), ctx.real("width"), ctx.pick("n", [0, 1, 2]), ctx.real("size")
        for x in (thr, width, size):
            ctx.assume(x > 0)
        if not ctx.symbolic:        # the back ends take plain numbers
            thr, width, size = float(thr), float(width), float(size)
        kw = dict(threshold_relevant_interaction=thr, max_edge_width=width, n_highest_with_labels=n, node_size=size)
    with plots.record(ctx) as r:
        m.plot("graph", **kw)
    ctx.same(len(r.graphs), 1, "one graph")
    check(ctx, r.graphs[0][1], kind, rows, imp, asc, thr, width, n, size)


def check(ctx, g, kind, rows, imp, asc, thr, width, n, size):
    feats = {f for r in rows for f in r[:2]} | set(imp)
    ctx.same(sorted(g["nodes"]), sorted(feats), "one node per feature")
    ctx.same(sorted(k for k, v in g["labels"].items() if v == k), sorted(feats), "every node carries its name")
    top = None
    for x in imp.values():
        if not isnan(x):
            top = x if top is None or bool(x > top) else top
    for f in sorted(g["nodes"]):
        x = imp.get(f, 0.0)
        if not isnan(x) and f in feats and bool(x >= 0):
            ctx.eq(g["nodes"][f] * top, x * size, "size of node %s is proportional to its importance" % f)
    # edges
    directed = kind == "cmd"
    key = (lambda f, h: (f, h)) if directed else (lambda f, h: frozenset((f, h)))
    val = {}
    for r in rows:
        val.setdefault(key(r[0], r[1]), []).append(r[2])
    edges = {}
    for (u, v), w in g["edges"].items():
        ctx.true(key(u, v) not in edges, "one edge per pair")
        edges[key(u, v)] = w
    ctx.same(sorted(map(sorted, edges)) if not directed else sorted(edges),
             sorted(map(sorted, val)) if not directed else sorted(val), "exactly the pairs of the table are joined")
    relevant = {}
    for k, xs in val.items():
        rel = [not isnan(x) and (bool(x <= thr) if asc else bool(x >= thr) and bool(x > 0)) for x in xs]
        relevant[k] = rel
    known = [(x, rr) for k, xs in val.items() for x, rr in zip(xs, relevant[k])]
    for k in val:
        if k not in edges:
            continue
        w = edges[k]
        name = "-".join(k if directed else sorted(k))
        ctx.true(not isnan(w), "width of %s is defined" % name)
        ctx.true(w >= 0, "width of %s is not negative" % name)
        ctx.le(w, width, "width of %s is at most the maximum" % name)
        if not any(relevant[k]):
            ctx.eq(w, 0, "%s is below the relevance threshold" % name)
    strong = (lambda x, y: bool(x < y)) if asc else (lambda x, y: bool(x > y))
    single = [k for k in val if len(val[k]) == 1 and k in edges]
    for k in single:
        if relevant[k][0]:
            x = val[k][0]
            if not any(strong(y, x) for y, rr in known if rr):
                ctx.eq(edges[k], width, "the strongest interaction has the maximum width")
    for k in single:
        for q in single:
            if k != q and relevant[k][0] and relevant[q][0]:
                if strong(val[k][0], val[q][0]):
                    ctx.lt(edges[q], edges[k], "stronger interactions are drawn thicker")
                elif not strong(val[q][0], val[k][0]):
                    ctx.eq(edges[q], edges[k], "equal interactions are drawn equally")
    # labels
    if asc:
        return
    lab = {}
    for (u, v), t in g["edge_labels"].items():
        lab[key(u, v)] = t
    rel = [(r, rr) for k, xs in val.items() for r, rr in zip([r for r in rows if key(r[0], r[1]) == k], relevant[k]) if rr]
    if any(len(xs) > 1 for xs in val.values()):
        return
    ctx.same(len(lab), min(n, len(rel)), "number of labelled edges")
    for k, t in lab.items():
        if k not in val:
            ctx.true(False, "label at an edge")
            continue
        x = val[k][0]
        ctx.true(relevant[k][0], "labelled interactions are relevant")
        if ctx.symbolic:
            ctx.eq(t, round(x, 2), "label shows the value")
        else:
            ctx.true(abs(float(t) - x) <= 0.0051 + 1e-6 * abs(x), "label shows the value")
        for r, _ in rel:
            if key(r[0], r[1]) not in lab:
                ctx.true(not strong(r[2], x), "the strongest interactions are labelled")
