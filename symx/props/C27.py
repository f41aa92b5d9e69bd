"""Which model output is explained."""
import numpy as np

from symx import perf, rng
from symx.lib import Data, PD, Predictor, check_features, check_pairs, iszero
from symx.props.C08 import match_pairs
from symx.props.C09 import match_importance

NAMES = ["b", "a"]
BOUNDS = ("every explanation method; models with class probabilities (2 or 3 classes), plain predictions or both, each an independent "
          "arbitrary function, with and without a given prediction function, changing between two fits, or taken from a supplied calculator; 2 rows x 2 columns")
VALIDATE_P = 0.5
STUBS = ["random generator: one fixed sequence of permutations (performance based methods)", "metric: uninterpreted function"]


def configs(tier):
    out = []
    for via in ("hstat", "greenwell", "importance", "additivity", "calculator"):
        out += [{"via": via, "has": h, "fn": f} for h in ("predict", "proba2", "proba3", "both2", "both3") for f in (False, True)]
        out += [{"via": via, "has": "none", "fn": True}]
    out += [{"via": v, "has": "both2", "fn": False, "twice": True} for v in ("hstat", "greenwell", "importance", "additivity")]
    out += [{"via": v, "has": "both2", "fn": f, "calc": True} for v in ("hstat", "greenwell", "additivity") for f in (False, True)]
    out += [{"via": v, "has": h, "fn": False} for v in ("sejong", "permutation") for h in ("predict", "both2")]
    return out


def make(ctx, data, has):
    """(model, output explained by default)"""
    plain, proba, other = (Predictor(ctx, data, tag=t) for t in ("plain", "proba", "other"))

    class Base:
        pass
    if has == "predict" or has.startswith("both"):
        Base.predict = lambda self, X: plain(X)
    if has[-1] in "23":
        def predict_proba(self, X):
            p, o = proba(X), other(X)
            cols = [o, p] if has[-1] == "2" else [o, p, 1 - o - p]
            out = np.empty((len(p), len(cols)), dtype=object if ctx.symbolic else float)
            for j, c in enumerate(cols):
                out[:, j] = c
            return out
        Base.predict_proba = predict_proba
    return Base(), {"plain": plain, "default": proba if has[-1] in "23" else plain}


def explain(ctx, via, model, X, fn, old=None, calc=None):
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    from artemis.additivity import AdditivityMeter
    kw = {} if fn is None else {"predict_function": fn}
    if calc is not None:
        kw["pd_calculator"] = calc
    if via == "hstat":
        m = old or FriedmanHStatisticMethod(normalized=False)
        m.fit(model, X, **kw)
    elif via == "greenwell":
        m = old or GreenwellMethod()
        m.fit(model, X, **kw)
    elif via == "importance":
        m = old or PartialDependenceBasedImportance()
        m.importance(model, X, **kw)
    elif via == "calculator":
        from artemis._utilities.pd_calculator import PartialDependenceCalculator
        from artemis._utilities.ops import get_predict_function
        pc = PartialDependenceCalculator(model, X, get_predict_function(model, fn), 2000)
        m = PartialDependenceBasedImportance()
        m.importance(model, X, pd_calculator=pc)
    else:
        m = old or AdditivityMeter()
        m.fit(model, X, **kw)
    return m


def check(ctx, via, m, pred, data):
    ref = PD(ctx, pred, data)
    if via == "additivity":
        t, b = ref.additivity()
        ctx.eq(m.additivity_index * b, b - t, "additivity of the explained output")
        return
    check_features(ctx, m.feature_importance, {f: ref.importance(i) for i, f in enumerate(NAMES)}, "importance for the explained output")
    if via == "hstat":
        check_pairs(ctx, m.ovo, m.method, {tuple(NAMES): ref.h_pair(0, 1, False)}, "H-statistic of the explained output")
        check_features(ctx, m.ova, {f: ref.h_all(i, False) for i, f in enumerate(NAMES)}, "one-vs-all of the explained output", col=m.method)
    elif via == "greenwell":
        check_pairs(ctx, m.ovo, m.method, {tuple(NAMES): ref.greenwell(0, 1)}, "Greenwell value of the explained output")


def varies(ctx, pred, data):
    _, b = PD(ctx, pred, data).additivity()
    return not iszero(ctx, b)


def run(ctx, cfg):
    via = cfg["via"]
    data = Data(ctx, 2, NAMES, "nn", index=[5, 2], fixed=True)
    model, outs = make(ctx, data, cfg["has"])
    if via in ("sejong", "permutation"):
        return performance(ctx, via, data, model, outs["plain"])
    given = Predictor(ctx, data, tag="given")
    seen = []

    def fn(m, X):
        seen.append(m is model)
        return given(X)
    use = given if cfg["fn"] else outs["default"]
    if via == "additivity" and not (varies(ctx, use, data) and (not cfg.get("twice") or varies(ctx, given, data))):
        return
    if cfg.get("calc"):
        from artemis._utilities.pd_calculator import PartialDependenceCalculator
        pc = PartialDependenceCalculator(model, data.frame, fn if cfg["fn"] else None)
        m = explain(ctx, via, model, data.frame, fn if cfg["fn"] and ctx.flag("named again") else None, calc=pc)
    else:
        m = explain(ctx, via, model, data.frame, fn if cfg["fn"] else None)
    check(ctx, via, m, use, data)
    if cfg.get("twice"):
        check(ctx, via, explain(ctx, via, model, data.frame, fn, m), given, data)
        check(ctx, via, explain(ctx, via, model, data.frame, None, m), use, data)
    ctx.same(all(seen), True, "the function is given the model")


def performance(ctx, via, data, model, plain):
    from artemis.interactions_methods.model_agnostic import SejongOhMethod
    from artemis.importance_methods.model_agnostic import PermutationImportance
    from artemis._utilities.performance_metrics import MSE
    from symx.props.C26 import Ref, container
    rng.script()
    y = [ctx.real("y%d" % i) for i in range(2)]
    yy = container(ctx, y, "array", data.index)
    pf = perf.Perf(ctx, data, Ref(ctx, "MSE", plain, y, 2), range(2), None)
    if via == "sejong":
        m = SejongOhMethod(MSE())
        m.fit(model, data.frame, yy, n_repeat=1)
        D = perf.draws(2)
        used = match_pairs(ctx, pf, m.ovo, m.method, NAMES, 1, D, "interaction of the predictions")
        fi, D = m.feature_importance, [d for i, d in enumerate(D) if used and i not in used]
    else:
        fi = PermutationImportance(MSE()).importance(model, data.frame, yy, n_repeat=1)
        D = perf.draws(2)
    match_importance(ctx, pf, fi, NAMES, 1, "regression", D, "importance for the predictions")
