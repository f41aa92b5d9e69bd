"""Sharing a calculator or refitting an object never changes a result; foreign calculators are rejected."""
from symx.lib import Data, make_model, PredictModel, Predictor

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("every sequence of 3 operations out of 7 (H-statistic on all/reversed features with and without one-vs-all, "
          "Greenwell, partial-dependence importance, additivity, direct calculator use) on a shared calculator, and every "
          "pair of fits of one object, on 2x2 arbitrary cells; every pair of operations on 2x3 and 3x2 distinct cells; "
          "arbitrary prediction function. Foreign calculators: other model, other cell, other row order, fewer rows, "
          "other columns, other column order, other prediction function")
OPS = ["h_all", "h_rev", "g_rev", "imp", "add", "g_all", "raw"]
METHODS = ["H", "G", "I", "A"]


def configs(tier):
    out = []
    for last in OPS[:-1]:
        out.append({"kind": "share", "n": 2, "m": 2, "last": last, "len": 3, "fixed": True})
        out.append({"kind": "share", "n": 2, "m": 2, "last": last, "len": 2})
        if last in ("h_rev", "imp", "add"):
            out.append({"kind": "share", "n": 2, "m": 3, "last": last, "len": 2, "fixed": True})
    for w in METHODS:
        out.append({"kind": "refit", "n": 2, "m": 2, "who": w})
        out.append({"kind": "reject", "n": 2, "m": 2, "who": w})
    if tier == "thorough":
        for last in OPS[:-1]:
            out.append({"kind": "share", "n": 2, "m": 2, "last": last, "len": 3})
            out.append({"kind": "share", "n": 2, "m": 3, "last": last, "len": 2, "fixed": True})
            out.append({"kind": "share", "n": 3, "m": 2, "last": last, "len": 2, "fixed": True})
    return out


def fitted(op, model, fn, X, calc, bs):
    """run one operation; returns a flat description of its results"""
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
    from artemis.additivity import AdditivityMeter
    names = list(X.columns)
    kw = dict(predict_function=fn, batchsize=bs, pd_calculator=calc)
    if op in ("h_all", "h_rev", "g_all", "g_rev"):
        o = FriedmanHStatisticMethod() if op[0] == "h" else GreenwellMethod()
        if op == "h_rev":
            kw["calculate_ova"] = False
        o.fit(model, X, features=None if op.endswith("all") else names[::-1][:2], **kw)
        return results(o)
    if op == "imp":
        o = PartialDependenceBasedImportance()
        o.importance(model, X, features=names[::-1], **kw)
        return results(o)
    if op == "add":
        o = AdditivityMeter()
        o.fit(model, X, **kw)
        return results(o)
    if calc is not None:
        calc.calculate_pd_pairs([(names[0], names[1])], all_combinations=True)
        calc.calculate_pd_minus_single([names[-1]])
    return []


def results(o):
    out = []
    for attr in ("ovo", "ova", "feature_importance", "full_result"):
        d = getattr(o, attr, None)
        if d is None:
            out.append((attr, None))
            continue
        keys = [c for c in d.columns if c.startswith("Feature")] if attr != "full_result" else []
        # rows with equal strength may come in any order: match rows by their key
        rows = [(tuple(d[k].iloc[i] for k in keys) or i, [d[c].iloc[i] for c in d.columns if c not in keys])
                for i in range(len(d))]
        out.append((attr, list(d.columns), sorted(rows, key=lambda r: r[0])))
    out.append(("index", getattr(o, "additivity_index", None)))
    return out


def compare(ctx, got, want, label):
    ctx.true(len(got) == len(want), label + ": same results")
    for g, w in zip(got, want):
        if g[0] == "index":
            if w[1] is not None:
                ctx.eq(g[1], w[1], label + ": additivity index")
            continue
        if g[1] is None or w[1] is None:
            ctx.true(g[1] is None and w[1] is None, label + ": " + g[0] + " present as in a fresh computation")
            continue
        ctx.true(g[1] == w[1] and [r[0] for r in g[2]] == [r[0] for r in w[2]], label + ": rows of " + g[0])
        for a, b in zip(g[2], w[2]):
            ctx.eqs(a[1], b[1], label + ": " + g[0] + " %s" % (a[0],))


def run(ctx, cfg):
    from artemis._utilities.pd_calculator import PartialDependenceCalculator
    n, m = cfg["n"], cfg["m"]
    names = NAMES[:m]
    kind = cfg["kind"]
    data = Data(ctx, n, names, "n" * m, fixed=cfg.get("fixed", kind == "refit"))
    model, fn, pred = make_model(ctx, data, "predict" if kind != "share" else "function")
    # additivity is undefined for constant predictions; keep to the defined case
    ctx.assume(pred.ref(0) != pred.ref(1))
    if kind == "share":
        calc = PartialDependenceCalculator(model, data.frame, fn, 3)
        ops = [ctx.pick("op%d" % i, OPS) for i in range(cfg["len"] - 1)] + [cfg["last"]]
        for op in ops:
            got = fitted(op, model, fn, data.frame, calc, 3)
        want = fitted(ops[-1], model, fn, data.frame, None, 2000)
        compare(ctx, got, want, "after %s with a shared calculator" % ops[-1])
    elif kind == "refit":
        refit(ctx, cfg, data, model, pred)
    else:
        reject(ctx, cfg, data, model, pred)


def make(who):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
    from artemis.additivity import AdditivityMeter
    return {"H": FriedmanHStatisticMethod, "G": GreenwellMethod, "I": PartialDependenceBasedImportance,
            "A": AdditivityMeter}[who]()


def do_fit(ctx, o, who, model, X, step):
    """one fit with nondeterministic arguments; returns a function doing the same fit on another object"""
    names = list(X.columns)
    kw = {}
    if who != "A":
        kw["features"] = ctx.pick("features%d" % step, [None, names[::-1]])
    if who == "H":
        kw["calculate_ova"] = ctx.flag("ova%d" % step)
    f = (lambda q: q.importance(model, X, **kw)) if who == "I" else (lambda q: q.fit(model, X, **kw))
    f(o)
    return f


def refit(ctx, cfg, data, model, pred):
    who = cfg["who"]
    other = Data(ctx, 3, ["a", "b", "e"], "nnn", tag="z", fixed=True)
    model2 = PredictModel(Predictor(ctx, other, tag="q", value=lambda reps: float(sum(
        (r + 1) ** (c + 1) for c, r in enumerate(reps)) + reps[0] * reps[2])))
    o = make(who)
    first_other = ctx.flag("first on another model and table")
    do_fit(ctx, o, who, model2 if first_other else model, other.frame if first_other else data.frame, 0)
    f = do_fit(ctx, o, who, model, data.frame, 1)
    fresh = make(who)
    f(fresh)
    compare(ctx, results(o), results(fresh), "refitted object")
    if who in "HG":
        a, b = results(o)[0][2][0][0]
        ctx.eq(o.interaction_value(a, b), results(fresh)[0][2][0][1][0], "interaction value after refit")


def reject(ctx, cfg, data, model, pred):
    from artemis._utilities.pd_calculator import PartialDependenceCalculator
    who = cfg["who"]
    n, names = data.n, data.names
    how = ctx.pick("foreign", ["model", "cell", "order", "rows", "columns", "swapped columns", "function", "none"])
    X, m2 = data.frame, model
    if how == "model":
        m2 = PredictModel(pred)
    elif how == "cell":
        X = data.frame.copy()
        v = ctx.real("other cell")
        r, c = ctx.choose("row", n), ctx.choose("col", len(names))
        ctx.assume(v != data.cells[names[c]][r])
        X.iloc[r, c] = v
    elif how == "order":
        ctx.assume(data.cells[names[0]][0] != data.cells[names[0]][1])
        X = data.make([1, 0])
        X.index = data.frame.index
    elif how == "rows":
        X = data.make([0])
    elif how == "columns":
        X = data.frame.rename(columns={names[0]: "other"})
    elif how == "swapped columns":
        X = data.frame[names[::-1]]
    o = make(who)
    fn = lambda mm, d: pred((d[names[::-1]] if how == "swapped columns" else d).set_axis(names, axis=1))
    if how == "none":       # not what the model would be asked by default
        own = Predictor(ctx, data, tag="f")
        fn = lambda mm, d: own(d)
        ctx.assume(own.ref(0) != own.ref(1))
    calc = PartialDependenceCalculator(m2, X, fn, 5)
    kw = {}
    if how == "function":
        other = Predictor(ctx, data, tag="o")
        kw["predict_function"] = lambda mm, d: other(d)
    elif how == "none" and ctx.flag("same function given"):
        kw["predict_function"] = fn
    st, v = ctx.call((o.importance if who == "I" else o.fit), model, data.frame, pd_calculator=calc, **kw)
    if how == "none":
        ctx.true(st == "ok", "a matching calculator is accepted")
        fresh = make(who)
        (fresh.importance if who == "I" else fresh.fit)(model, data.frame, predict_function=fn)
        compare(ctx, results(o), results(fresh), "with the calculator's prediction function")
    else:
        ctx.true(st == "raise" and isinstance(v, ValueError), "a calculator for another %s is rejected" % how)
        for a in ("ovo", "ova", "feature_importance", "additivity_index"):
            ctx.true(getattr(o, a, None) is None, "nothing is published from a foreign calculator")
