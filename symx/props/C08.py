"""Performance based (Sejong Oh) interactions."""
from itertools import combinations, permutations
from symx import rng, perf
from symx.lib import Data, check_numbered, check_sorted
from symx.props.C09 import feature_arg, match_importance, key_eq

NAMES = ["b", "a", "c"]
BOUNDS = ("2 rows: 2 columns with 1-2 repeats, 3 columns with 1 repeat, every permutation drawn; 3 rows x 2 columns, 1 "
          "repeat, permutations {identity, swap, rotation}; 4 rows x 2 columns, 3 repeats, one fixed sequence of different permutations; metric = arbitrary function of targets and predictions; "
          "regression and classification; target as array or series; features all / reversed / subset; "
          "typed columns; the default number of repeats with a fixed sequence")
STUBS = ["random generator: arbitrary permutations", "metric: uninterpreted function"]


def configs(tier):
    out = []
    for prob in ("regression", "classification"):
        out += [{"n": 2, "m": 2, "k": 1, "prob": prob, "features": "none", "y": "array"},
                {"n": 2, "m": 2, "k": 2, "prob": prob, "features": "rev", "y": "series", "pool": 1},
                {"n": 2, "m": 3, "k": 1, "prob": prob, "features": "sub", "y": "array"},
                {"n": 3, "m": 2, "k": 1, "prob": prob, "features": "none", "y": "series", "pool": 3}]
    out += [{"n": 2, "m": 3, "k": 1, "prob": "regression", "features": "none", "y": "array", "pool": 1},
            {"n": 2, "m": 2, "k": 2, "prob": "regression", "features": "none", "y": "series"},
            {"n": 4, "m": 2, "k": 3, "prob": "regression", "features": "none", "y": "array", "script": True},
            {"n": 4, "m": 2, "k": 3, "prob": "classification", "features": "rev", "y": "series", "script": True}]
    out += [{"n": 4, "m": 3, "k": 2, "prob": "regression", "features": "rev", "y": "array", "spec": "KLs", "script": True},
            {"n": 2, "m": 2, "k": 1, "prob": "classification", "features": "none", "y": "array", "spec": "ik", "show": True},
            {"n": 4, "m": 2, "k": None, "prob": "regression", "features": "none", "y": "series", "script": True}]
    if tier == "thorough":
        out += [{"n": 3, "m": 2, "k": 1, "prob": "regression", "features": "none", "y": "series"},
                {"n": 2, "m": 3, "k": 1, "prob": "classification", "features": "none", "y": "array"},
                {"n": 3, "m": 2, "k": 2, "prob": "classification", "features": "none", "y": "series", "pool": 2}]
    return out


def pool(k):
    ps = {1: [1], 2: [1, 2], 3: [0, 1, 2]}[k]

    def f(n):
        allp = [tuple(range(n)), tuple(range(1, n)) + (0,), (1, 0) + tuple(range(2, n))]
        return [allp[i] for i in ps]
    return f


def match_pairs(ctx, pf, ovo, col, feats, k, D, label):
    """value of a pair: mean over repeats of |perf(both permuted together) - perf(f1) - perf(f2) + perf|, every
    repeat using three different draws; which draw plays which role is left open"""
    data = pf.data
    pos = {f: i for i, f in enumerate(data.names)}
    base = pf.perf()
    pairs = list(combinations(feats, 2))
    got = {}
    for i in range(len(ovo)):
        got.setdefault(frozenset((ovo["Feature 1"].iloc[i], ovo["Feature 2"].iloc[i])), []).append(ovo[col].iloc[i])
    ok = len(ovo) == len(pairs) and all(len(got.get(frozenset(p), [])) == 1 for p in pairs)
    ctx.true(ok, label + ": each pair exactly once")
    if not ok:
        return []
    cache = {}

    def term(pr, t):
        a, b, ab = (D[i] for i in t)
        kk = (pr, a, b, ab)
        if kk not in cache:
            c1, c2 = pos[pr[0]], pos[pr[1]]
            cache[kk] = abs(pf.perf({c1: ab, c2: ab}) - pf.perf({c1: a}) - pf.perf({c2: b}) + base)
        return cache[kk]

    def value(pr, ts):
        t = 0
        for x in ts:
            t = t + term(pr, x)
        return t / k
    need = 3 * k * len(pairs)
    if len(D) < need:
        ctx.true(False, label + ": enough random permutations were drawn")
        return []
    use, nat0 = None, None
    for nat in natural(len(D), need, pairs, k):
        nat0 = nat0 or nat
        if all(key_eq(ctx, got[frozenset(pr)][0], value(pr, nat[pr])) for pr in pairs):
            use = nat
            break
    if use is None:
        use = search(ctx, got, pairs, k, D, term) or nat0
    for pr in pairs:
        ctx.eq(got[frozenset(pr)][0], value(pr, use[pr]), label + " %s-%s" % pr)
    check_sorted(ctx, list(ovo[col]), label)
    check_numbered(ctx, ovo, label)
    return sorted(i for ts in use.values() for t in ts for i in t)


def natural(total, need, pairs, k):
    """consecutive draws: the obvious order first, then other loop nestings and orders of the three roles"""
    P = len(pairs)
    for off in range(total - need + 1):
        for roles in permutations(range(3)):
            for at in (lambda j, r, i: 3 * (j * k + r) + i, lambda j, r, i: 3 * (r * P + j) + i,
                       lambda j, r, i: (j * 3 + i) * k + r, lambda j, r, i: (i * P + j) * k + r,
                       lambda j, r, i: (i * k + r) * P + j, lambda j, r, i: (r * 3 + i) * P + j):
                yield {pr: [tuple(off + at(j, r, roles[i]) for i in range(3)) for r in range(k)]
                       for j, pr in enumerate(pairs)}


def search(ctx, got, pairs, k, D, term):
    trip = list(permutations(range(len(D)), 3))

    def rec(i, used, acc):
        if i == len(pairs):
            return dict(acc)
        pr = pairs[i]
        g = got[frozenset(pr)][0]
        target = perf.key(ctx, g * k)
        av = [t for t in trip if not used & set(t)]
        if k == 1:
            cand = ([t] for t in av if perf.key(ctx, term(pr, t)) == target)
        elif k == 2:
            by = {}
            for t in av:
                by.setdefault(perf.key(ctx, term(pr, t)), []).append(t)

            def gen():
                for t in av:
                    for u in by.get(perf.key(ctx, g * k - term(pr, t)), []):
                        if not set(t) & set(u):
                            yield [t, u]
            cand = gen()
        else:
            cand = []
        for c in cand:
            acc[pr] = c
            r = rec(i + 1, used | {x for t in c for x in t}, acc)
            if r:
                return r
        return None
    return rec(0, set(), {})


def run(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import SejongOhMethod
    n, m = cfg["n"], cfg["m"]
    data = Data(ctx, n, NAMES[:m], cfg.get("spec", "n" * m), index=[4, 9, 4, 1][:n], fixed=True)
    if cfg.get("pool"):
        rng.restrict(pool(cfg["pool"]))
    if cfg.get("script"):
        rng.script()
    metric = perf.make_metric(ctx, cfg["prob"])
    y = perf.targets(n, cfg["y"], data.index)
    X = data.frame.copy()
    arg, feats = feature_arg(data.names, cfg["features"])
    meth = SejongOhMethod(metric)
    meth.fit(perf.CodeModel(data), X, y, features=arg,
             show_progress=cfg.get("show", False), **({"n_repeat": cfg["k"]} if cfg["k"] else {}))
    k = cfg["k"] or 10
    pf = perf.Perf(ctx, data, metric, range(n), y)
    D = perf.draws(n)
    used = match_pairs(ctx, pf, meth.ovo, meth.method, feats, k, D, "performance interaction")
    rest = [d for i, d in enumerate(D) if used and i not in used]
    match_importance(ctx, pf, meth.feature_importance, feats, k, cfg["prob"], rest, "permutation importance")
    ctx.true(X.equals(data.frame), "input table unchanged")
    ctx.out("v0", meth.ovo[meth.method].iloc[0])
