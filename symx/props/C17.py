"""Rank correlation of two methods."""
import math

from symx import fitted
from symx.props.C16 import orders

BOUNDS = ("two methods over the same 3 pairs of features (every order of either table, ties, either order of the two names in a "
          "pair), both directions of a pair for the methods that distinguish them, names that concatenate equally or differ in case only, "
          "second methods with fewer or other pairs, pairs without a value; arbitrary values")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model",
         "ranks and correlations of symbolic columns follow the definition (average ranks); of concrete ranks, pandas itself"]

COMBOS = [("hstat", "greenwell"), ("split", "cmd"), ("split_depth", "sejong"), ("cmd", "hstat"), ("greenwell", "split_depth")]


def configs(tier):
    out = [{"k": list(c)} for c in COMBOS]
    out += [{"k": ["hstat", "sejong"], "names": "dash"}, {"k": ["split", "hstat"], "both": 1},
            {"k": ["split_depth", "hstat"], "both": 1}, {"k": ["greenwell", "split_depth"], "both": 1}]
    out += [{"k": ["hstat", "split"], "second": "less"}, {"k": ["split_depth", "greenwell"], "second": "other"},
            {"k": ["hstat", "cmd"], "second": "first"}, {"k": ["hstat", "cmd"], "nan": 1}, {"k": ["cmd", "split"], "nan": 1}]
    if tier == "thorough":
        out += [{"k": [a, b]} for a in fitted.KINDS for b in fitted.KINDS if (a, b) not in COMBOS]
        out += [{"k": ["split", "split_depth"], "both": 1}, {"k": ["sejong", "split"], "both": 1}, {"k": ["hstat", "greenwell"], "nf": 4}]
    return out


def ranks(v, strong):
    """average ranks; the strongest gets the highest rank"""
    out = []
    for i, x in enumerate(v):
        w = sum(1 for j, y in enumerate(v) if j != i and strong(x, y))
        t = sum(1 for j, y in enumerate(v) if j != i and not strong(x, y) and not strong(y, x))
        out.append(1 + w + t / 2)
    return out


def pearson(a, b):
    n = len(a)
    ma, mb = sum(a) / n, sum(b) / n
    sa, sb = sum((x - ma) ** 2 for x in a), sum((x - mb) ** 2 for x in b)
    if sa == 0 or sb == 0:
        return float("nan")
    return sum((x - ma) * (y - mb) for x, y in zip(a, b)) / math.sqrt(sa * sb)


def kendall(a, b):
    sg = lambda x: (x > 0) - (x < 0)
    n = len(a)
    ij = [(i, j) for i in range(n) for j in range(i)]
    num = sum(sg(a[i] - a[j]) * sg(b[i] - b[j]) for i, j in ij)
    ta, tb = sum(1 for i, j in ij if a[i] != a[j]), sum(1 for i, j in ij if b[i] != b[j])
    if ta == 0 or tb == 0:
        return float("nan")
    return num / math.sqrt(ta * tb)


NAN = float("nan")


def table(ctx, kind, pairs, tag, cfg, free):
    """fitted method with an arbitrary table; value of every pair"""
    asc = kind in fitted.ASC
    m = fitted.raw(kind, sorted({f for p in pairs for f in p}))
    if kind == "cmd":
        v = {}
        for k, (f, g) in enumerate(pairs):
            x, y = ctx.real("%s%d>" % (tag, k)), ctx.real("%s%d<" % (tag, k))
            ctx.assume(x >= 0)
            ctx.assume(y >= 0)
            v[(f, g)], v[(g, f)] = x, y
        if cfg.get("nan"):          # no tree splits on both features of the first pair
            f, g = pairs[0]
            v[(f, g)] = v[(g, f)] = NAN
        if free:
            for (f, g), (h, i) in zip(pairs[bool(cfg.get("nan")):], pairs[1 + bool(cfg.get("nan")):]):
                ctx.assume(v[(f, g)] + v[(g, f)] <= v[(h, i)] + v[(i, h)])
        rows = [(f, g, x, 1) for (f, g), x in v.items()]
        fitted.put(m, rows)
        return m, {p: (v[p] + v[p[::-1]]) / 2 for p in pairs if v[p] is not NAN}
    rows = list(pairs)
    if cfg.get("both") and kind.startswith("split"):
        rows = [q for p in rows[:cfg["both"]] for q in (p, p[::-1])] + rows[cfg["both"]:]
    if not free:
        rows = orders(ctx, rows, tag + "row")
    vals = fitted.values(ctx, len(rows), tag, asc)
    best = {}
    for (f, g), x in zip(rows, vals):
        best.setdefault(frozenset((f, g)), x)
    sw = ctx.flag(tag + "swap") if not cfg.get("both") and not free else bool(cfg.get("swap"))
    fitted.put(m, [(g, f, x) if sw and i % 2 == 0 else (f, g, x) for i, ((f, g), x) in enumerate(zip(rows, vals))])
    return m, {p: best[frozenset(p)] for p in pairs}


def other_pairs(pairs, cfg):
    """pairs of the second method: the same, some missing, some others"""
    return {"less": pairs[:2], "other": pairs[1:] + [("d", "a")], "first": [("d", pairs[0][0]), pairs[0], pairs[2]]}.get(
        cfg.get("second"), pairs)


def run(ctx, cfg):
    from artemis.comparison import FeatureInteractionMethodComparator
    names = ["B", "b", "a"] if cfg.get("nf") != 4 else ["d", "B", "b", "a"]
    pairs = [(f, g) for i, f in enumerate(names) for g in names[i + 1:]]
    if cfg.get("names") == "dash":
        pairs = [("a-b", "c"), ("a", "b-c"), ("c", "a")]
    if len(pairs) > 3:
        pairs = pairs[:4]
    k1, k2 = cfg["k"]
    m1, v1 = table(ctx, k1, pairs, "v", cfg, True)
    pairs2 = other_pairs(pairs, cfg)
    m2, v2 = table(ctx, k2, pairs2, "w", cfg, False)
    pairs = [p for p in pairs if p in pairs2 and p in v1 and p in v2]
    less = lambda asc: (lambda x, y: bool(x < y) if asc else bool(x > y))
    c = FeatureInteractionMethodComparator()
    got = {m: c.correlation(m1, m2, m) for m in ("pearson", "kendall", "spearman")}
    got["default"] = c.correlation(m1, m2)
    t = c.correlations(m1, m2)
    ctx.same(list(t["method"]), ["pearson", "kendall", "spearman"], "the three correlations, each once")
    got.update({n + " of the table": x for n, x in zip(t["method"], t["value"])})
    back = c.correlation(m2, m1, "kendall")
    r1 = ranks([v1[p] for p in pairs], less(k1 in fitted.ASC))
    r2 = ranks([v2[p] for p in pairs], less(k2 in fitted.ASC))
    want = {"pearson": pearson(r1, r2), "kendall": kendall(r1, r2), "spearman": pearson(r1, r2)}
    want["default"] = want["kendall"]
    for n, g in got.items():
        near(ctx, g, want[n.split()[0]], "%s correlation of the ranks" % n)
    near(ctx, back, want["kendall"], "correlation is symmetric")
    ctx.out("kendall", got["kendall"])


def near(ctx, got, want, label):
    if want != want:
        ctx.true(got != got, label + " is undefined")
    else:
        ctx.true(abs(got - want) <= 1e-9, label)
