"""Performance metrics."""
import numpy as np
import pandas as pd

from symx import perf, rng
from symx.lib import Data, Predictor
from symx.patches import SymArr
from symx.props.C08 import match_pairs
from symx.props.C09 import match_importance

NAMES = ["b", "a"]
BOUNDS = ("1-4 targets and predictions, arbitrary reals (class labels: arbitrary numbers or strings); array and series containers in every "
          "combination with unrelated row labels; through the performance based methods: 2 rows x 2 columns, arbitrary predictions "
          "and targets, one fixed sequence of permutations")
STUBS = ["random generator: one fixed sequence of permutations"]


def configs(tier):
    ns = [1, 2, 3] + ([4, 5] if tier == "thorough" else [])
    out = [{"metric": m, "n": n} for m in ("MSE", "RMSE", "Accuracy") for n in ns]
    out += [{"metric": "Accuracy", "n": n, "labels": 1} for n in (1, 2, 3)]
    out += [{"metric": m, "through": t} for m in ("MSE", "RMSE", "Accuracy", None) for t in ("sejong", "permutation")]
    out += [{"metric": "kinds"}]
    return out


def container(ctx, v, how, index):
    if all(isinstance(x, str) for x in v):
        a = np.array(v, dtype=object)
    elif ctx.symbolic:
        a = np.empty(len(v), dtype=object)
        a[:] = v
        a = a.view(SymArr)
    else:
        a = np.array([float(x) for x in v])
    return pd.Series(a, index=index) if how == "series" else a


def reference(ctx, name, y, p):
    if name == "Accuracy":
        return sum(1.0 if (a == b if isinstance(a, str) else bool(a == b)) else 0.0 for a, b in zip(y, p)) / len(y)
    mse = sum(((b - a) * (b - a) for a, b in zip(y, p)), 0) / len(y)
    return mse if name == "MSE" else ctx.sqrt(mse)


def direct(ctx, cfg):
    from artemis._utilities import performance_metrics as pm
    n, name = cfg["n"], cfg["metric"]
    if cfg.get("labels"):
        y = ["xyz"[ctx.choose("y%d" % i, 3)] for i in range(n)]
        p = ["xyz"[ctx.choose("p%d" % i, 3)] for i in range(n)]
    else:
        y = [ctx.real("y%d" % i) for i in range(n)]
        p = [ctx.real("p%d" % i) for i in range(n)]
    hy, hp = ctx.pick("containers", [("array", "array"), ("series", "array"), ("array", "series")])
    got = getattr(pm, name)().calculate(container(ctx, y, hy, [7, 3, 3, 0, 5][:n]), container(ctx, p, hp, [1, 0, 2, 9, 4][:n]))
    want = reference(ctx, name, y, p)
    ctx.eq(got, want, name)
    ctx.le(0.0, got, name + " is not negative")
    if name == "Accuracy":
        ctx.le(got, 1.0, name + " is at most 1")
    ctx.out("v", got)


class Ref:
    """metric over coded predictions, evaluated by definition"""

    def __init__(self, ctx, name, pred, y, m):
        self.ctx, self.name, self.pred, self.y, self.m = ctx, name, pred, y, m

    def value(self, y, codes):
        p = []
        for c in codes:
            cells, c = [], int(c)
            for _ in range(self.m):
                cells.append(c % perf.BASE)
                c //= perf.BASE
            p.append(self.pred.at(tuple(cells[::-1])))
        return reference(self.ctx, self.name, [self.y[int((v - 1000) // 7)] for v in y], p)


def through(ctx, cfg):
    from artemis._utilities import performance_metrics as pm
    from artemis.interactions_methods.model_agnostic import SejongOhMethod
    from artemis.importance_methods.model_agnostic import PermutationImportance
    n, m = 2, 2
    data = Data(ctx, n, NAMES, "nn", index=[4, 9], fixed=True)
    rng.script()
    pred = Predictor(ctx, data)

    class Model:
        def predict(self, X):
            return pred(X)
    y = [ctx.real("y%d" % i) for i in range(n)]
    name = cfg["metric"]
    args = [] if name is None else [getattr(pm, name)()]
    name = name or "RMSE"
    yy = container(ctx, y, ctx.pick("target", ["array", "series"]), data.index)
    prob = "classification" if name == "Accuracy" else "regression"
    pf = perf.Perf(ctx, data, Ref(ctx, name, pred, y, m), range(n), None)
    if cfg["through"] == "sejong":
        meth = SejongOhMethod(*args)
        meth.fit(Model(), data.frame, yy, n_repeat=1)
        D = perf.draws(n)
        used = match_pairs(ctx, pf, meth.ovo, meth.method, NAMES, 1, D, "interaction measured by " + name)
        fi = meth.feature_importance
        D = [d for i, d in enumerate(D) if used and i not in used]
    else:
        fi = PermutationImportance(*args).importance(Model(), data.frame, yy, n_repeat=1)
        D = perf.draws(n)
    match_importance(ctx, pf, fi, NAMES, 1, prob, D, "importance measured by " + name)


def run(ctx, cfg):
    if cfg.get("through"):
        return through(ctx, cfg)
    if cfg["metric"] != "kinds":
        return direct(ctx, cfg)
    from artemis._utilities import performance_metrics as pm
    from artemis._utilities.domain import ProblemType
    for name, kind in (("MSE", ProblemType.REGRESSION), ("RMSE", ProblemType.REGRESSION), ("Accuracy", ProblemType.CLASSIFICATION)):
        m = getattr(pm, name)()
        for k in (ProblemType.REGRESSION, ProblemType.CLASSIFICATION):
            ctx.same(bool(m.applicable_to(k)), k == kind, "%s applies to %s problems only" % (name, kind))
