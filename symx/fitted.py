"""Fitted explanation methods whose published result tables hold arbitrary values.

Each object is fitted for real on a tiny concrete model (so that whatever private state a fit leaves behind is there);
then its public result tables (`ovo`, `ova`, `feature_importance`) are replaced by tables with symbolic numbers."""
import numpy as np
import pandas as pd

from . import sym, trees
from .sym import Sym

KINDS = ["hstat", "greenwell", "sejong", "split", "split_depth", "cmd"]
ASC = {"split_depth", "cmd"}


class _Sum:
    def predict(self, X):
        return np.asarray([float(sum((i + 1) * v * v for i, v in enumerate(r))) for r in X.values.tolist()], dtype=float)


def col(v):
    v = list(v)
    if all(isinstance(x, (int, float)) for x in v):
        return np.array(v, dtype=float)
    a = np.empty(len(v), dtype=object)
    a[:] = v
    return a


def _tree(feats, gain=(1.0, 2.0)):
    r = trees.Node(0, 0, None)
    r.feature, r.gain, r.cover = feats[0], gain[0], 5.0
    c = trees.Node(0, 1, r)
    c.feature, c.gain, c.cover = feats[1], gain[1], 3.0
    r.left, r.right = c, trees.Node(0, 1, r)
    c.left, c.right = trees.Node(0, 2, c), trees.Node(0, 2, c)
    for i, n in enumerate(r.walk()):
        if n.leaf:
            n.gain, n.cover = trees.LEAF[i % 3], 1.0
    return r


def raw(kind, names=("a", "b"), importance_metric=None):
    """an object fitted on a concrete model"""
    from artemis.interactions_methods import model_agnostic as ma, model_specific as ms
    names = list(names)
    others(ma, ms)
    m = _raw(kind, names, importance_metric, ma, ms)
    others(ma, ms)
    return m


def others(ma, ms):
    """other methods exist as well"""
    from artemis._utilities.performance_metrics import MSE
    return [ma.FriedmanHStatisticMethod(), ma.GreenwellMethod(), ma.SejongOhMethod(MSE()), ms.SplitScoreMethod(),
            ms.ConditionalMinimalDepthMethod()]


def _raw(kind, names, importance_metric, ma, ms):
    if kind in ("hstat", "greenwell", "sejong"):
        X = pd.DataFrame({n: np.array([float(i), float(i + 1)]) for i, n in enumerate(names)})
        if kind == "sejong":
            X = X.iloc[:1]      # a single row: nothing to choose for the random generator
        if kind == "hstat":
            m = ma.FriedmanHStatisticMethod()
            m.fit(_Sum(), X)
        elif kind == "greenwell":
            m = ma.GreenwellMethod()
            m.fit(_Sum(), X)
        else:
            from artemis._utilities.performance_metrics import MSE
            m = ma.SejongOhMethod(MSE(), random_state=0)
            m.fit(_Sum(), X, np.array([1.0]), n_repeat=1)
        return m
    if kind == "cmd":
        r = _tree((0, 1))
        m = ms.ConditionalMinimalDepthMethod()
        m.fit(trees.SkForest([r], names))
        return m
    m = ms.SplitScoreMethod()
    fr = trees.xgb_frame([_tree((names[0], names[1]))], "level")
    depth = kind == "split_depth"
    m.fit(trees.gb_model("xgboost", fr), interaction_selected_metric="mean_depth" if depth else "sum_gain",
          importance_selected_metric=importance_metric or ("mean_depth" if depth else "sum_gain"))
    return m


def put(m, rows, importance=None, ova=None):
    """rows: [(f1, f2, value[, occurrences])] in the published order"""
    if "root_variable" in m.ovo.columns:
        m.ovo = pd.DataFrame({"root_variable": [r[0] for r in rows], "variable": [r[1] for r in rows],
                              m.method: col([r[2] for r in rows]),
                              "n_occurences": [int(r[3]) if len(r) > 3 else 1 for r in rows]},
                             columns=["root_variable", "variable", m.method, "n_occurences"],
                             index=[i + 1 + (i > 0) for i in range(len(rows))])      # pairs of a feature with itself are left out
    else:
        m.ovo = pd.DataFrame({"Feature 1": [r[0] for r in rows], "Feature 2": [r[1] for r in rows],
                              m.method: col([r[2] for r in rows])}, columns=["Feature 1", "Feature 2", m.method])
    if importance is not None:
        m.feature_importance = pd.DataFrame({"Feature": [f for f, _ in importance],
                                             "Importance": col([v for _, v in importance])},
                                            columns=["Feature", "Importance"])
    if ova is not None:
        m.ova = pd.DataFrame({"Feature": [f for f, _ in ova], m.method: col([v for _, v in ova])},
                             columns=["Feature", m.method])
    return m


def values(ctx, n, tag, asc, strict=False, nonneg=True):
    """n numbers, strongest first"""
    v = [ctx.real("%s%d" % (tag, i)) for i in range(n)]
    for x, y in zip(v, v[1:]):
        lo, hi = (x, y) if asc else (y, x)
        ctx.assume(lo < hi if strict else lo <= hi)
    if nonneg and v:
        ctx.assume((v[0] if asc else v[-1]) >= 0)
    return v


def ident(a, b):
    """equal without asking the solver"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not (isinstance(a, Sym) and isinstance(b, Sym)):
            return False
        d = sym.p_const(sym.p_add(a.p, b.p, -1))
        return d is not None and d == 0
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)) or a != a and b != b


def match(items, *tests):
    """items whose values equal the wanted ones; syntactically if possible, else decided (forking) by the solver"""
    hit = [i for i in items if all(ident(f(i), w) for f, w in tests)]
    return hit or [i for i in items if all(bool(f(i) == w) for f, w in tests)]
