"""Looking up the interaction value of a pair."""
from symx import fitted

NAMES = ["b", "ab", "a", "B"]
BOUNDS = ("result tables of 3 features (3 pairs, 6 ordered pairs for the methods that distinguish directions; every row order "
          "consistent with the values, ties included) and of 4 features whose names concatenate equally or differ in case only; arbitrary values")
STUBS = ["the published result tables are replaced by arbitrary ones after a real fit on a concrete model"]


def configs(tier):
    out = [{"kind": k, "nf": 3} for k in fitted.KINDS]
    out += [{"kind": k, "nf": 3, "both": 1} for k in ("split", "split_depth")]
    out += [{"kind": "cmd", "nf": 3, "nan": True}]
    if tier == "thorough":
        out += [{"kind": k, "nf": 4} for k in ("hstat", "greenwell", "sejong", "split", "split_depth")]
        out += [{"kind": "cmd", "nf": 4, "few": True}]
        out += [{"kind": k, "nf": 3, "both": 2} for k in ("split", "split_depth")]
    return out


def orders(ctx, items, tag="row"):
    """every order of the items"""
    items = list(items)
    out = []
    while items:
        out.append(items.pop(ctx.choose("%s%d" % (tag, len(out)), len(items)) if len(items) > 1 else 0))
    return out


def run(ctx, cfg):
    kind = cfg["kind"]
    asc = kind in fitted.ASC
    names = NAMES[:cfg["nf"]]
    pairs = [(f, g) for i, f in enumerate(names) for g in names[i + 1:]]
    m = fitted.raw(kind, names)
    if kind == "cmd":
        if cfg.get("few"):
            pairs = pairs[:2] + pairs[-1:]
        both = [p for f, g in pairs for p in ((f, g), (g, f))]
        v = {p: ctx.real("v[%s,%s]" % p) for p in both}
        if cfg.get("nan"):
            v[both[0]] = float("nan")
            if ctx.flag("none of the two"):
                v[both[1]] = float("nan")
        rows = [(f, g, v[(f, g)], 1) for f, g in (both if ctx.flag("order") else both[::-1])]
        fitted.put(m, rows)
        for f, g in pairs:
            known = [x for x in (v[(f, g)], v[(g, f)]) if not (isinstance(x, float) and x != x)]
            for q in ((f, g), (g, f)):
                got = m.interaction_value(*q)
                if known:
                    ctx.eq(got, ctx.mean(known), "value of %s-%s is the mean over both directions" % q)
                else:
                    ctx.true(got != got, "no value for a pair that no tree uses")
        ctx.out("v", m.interaction_value(*pairs[-1]))
        return
    if cfg.get("both"):
        n = cfg["both"]
        pairs = [p for f, g in pairs[:n] for p in ((f, g), (g, f))] + pairs[n:]
    rows = orders(ctx, pairs)
    vals = fitted.values(ctx, len(rows), "v", asc)
    rows = [(f, g, x) if cfg.get("both") or not ctx.flag("swap %s%s" % (f, g)) else (g, f, x)
            for (f, g), x in zip(rows, vals)]
    fitted.put(m, rows)
    want = {}
    for f, g, x in rows:                    # strongest direction first
        want.setdefault(frozenset((f, g)), x)
    for f, g, _ in rows:
        for q in ((f, g), (g, f)):
            ctx.eq(m.interaction_value(*q), want[frozenset(q)], "value of %s-%s" % q)
    ctx.out("v", m.interaction_value(rows[0][0], rows[0][1]))
