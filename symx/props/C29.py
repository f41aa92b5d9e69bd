"""Tables handed to the model look like the data."""
from symx import rng, perf
from symx.lib import Data, Predictor, PredictModel, ProbaModel, OpaqueModel, predict_fn

NAMES = ["b", "a", "c"]
BOUNDS = ("2 rows (3 rows thorough) x 2-3 columns: one column of arbitrary reals next to columns of every other type "
          "(64- and 8-bit integers, integers beyond 2^53, single precision, booleans, nullable integers, ordered and "
          "unordered categories, strings, dates) with every pattern of equal values; arbitrary predictions; batch sizes "
          "0, 3, 2000; sampled and unsampled; every draw of the generator")
STUBS = ["random generator: arbitrary permutations and samples", "metric: uninterpreted function"]
PDM = ["hstat", "hstat_unnorm", "greenwell", "pdi", "additivity"]
PERF = ["sejong", "perm"]


def configs(tier):
    out = []
    for i, t in enumerate(["i", "I", "f", "b", "N", "k", "K", "s", "d", "L", "c"]):
        for j, m in enumerate(PDM + PERF):
            out.append({"what": m, "spec": (t + "n") if (i + j) % 2 else ("n" + t), "n": 2, "bs": [0, 3, 2000][(i + j) % 3],
                        "how": ["predict", "proba", "function"][(i + j) % 3], "sub": False})
    for j, m in enumerate(PDM + PERF):
        out.append({"what": m, "spec": ["kin", "nsb", "fKn"][j % 3], "n": 2, "bs": 3, "how": "predict", "sub": True})
        out.append({"what": m, "spec": ["nk", "in", "sn"][j % 3], "n": 3, "bs": 2000, "how": "predict", "sub": False,
                    "sample": 2})
    if tier == "thorough":
        for i, t in enumerate(["i", "f", "b", "N", "k", "K", "s", "d", "L"]):
            for j, m in enumerate(PDM + PERF):
                out.append({"what": m, "spec": t + "n", "n": 3, "bs": [0, 4, 2000][j % 3], "how": "predict", "sub": False})
    return out


class Watching(Predictor):
    """arbitrary predictions; looks at every table it is asked about"""

    def __init__(self, ctx, data, frame):
        super().__init__(ctx, data)
        self.want = frame.dtypes
        self.tables = 0

    def look(self, X):
        ctx, data = self.ctx, self.data
        self.tables += 1
        ok = list(X.columns) == data.names
        ctx.true(ok, "the model gets the columns of the data in their order")
        if not ok:
            raise KeyError("columns")
        ctx.true(len(X) > 0, "the model is never asked about an empty table")
        for c, nm in enumerate(data.names):
            ctx.true(same_type(X[nm].dtype, self.want[nm]),
                     "column %s keeps the type %s" % (nm, self.want[nm].name))
            for v in list(X[nm]):
                ctx.true(data.rep(c, v) is not None, "column %s only holds values of the data" % nm)

    def __call__(self, X):
        self.look(X)
        return super().__call__(X)


def same_type(a, b):
    if a != b:
        return False
    if hasattr(b, "categories"):
        return list(a.categories) == list(b.categories) and bool(a.ordered) == bool(b.ordered)
    return True


class WatchingCode(perf.CodeModel):
    def __init__(self, data, w):
        super().__init__(data)
        self._w = w

    def predict(self, X):
        self._w.look(X)
        return super().predict(X)


def run(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
    from artemis.additivity import AdditivityMeter
    n, names = cfg["n"], NAMES[:len(cfg["spec"])]
    data = Data(ctx, n, names, cfg["spec"], index=[5, 2, 9, 0][:n])
    X = data.frame.copy()
    w = Watching(ctx, data, X)
    what = cfg["what"]
    feats = names[:0:-1] if cfg["sub"] else None
    sample = cfg.get("sample")
    if what in PERF:
        rng.script()
        y = perf.targets(n, "array", data.index)
        metric = perf.make_metric(ctx, "regression")
        model = WatchingCode(data, w)
        if what == "perm":
            res = PermutationImportance(metric).importance(model, X, y, n_repeat=2, features=feats)
        else:
            m = SejongOhMethod(metric)
            m.fit(model, X, y, n=sample, n_repeat=2, features=feats)
            res = m.ovo
        ctx.true(len(res) == expect(what, names, feats), "one row per result")
    else:
        how = cfg["how"]
        model = {"predict": PredictModel, "proba": ProbaModel, "function": OpaqueModel}[how](w)
        fn = predict_fn if how == "function" else None
        kw = dict(n=sample, predict_function=fn, batchsize=cfg["bs"])
        if what == "pdi":
            res = PartialDependenceBasedImportance().importance(model, X, features=feats, **kw)
            ctx.true(len(res) == expect(what, names, feats), "one row per result")
        elif what == "additivity":
            AdditivityMeter().fit(model, X, **kw)
        else:
            m = GreenwellMethod() if what == "greenwell" else FriedmanHStatisticMethod(normalized=what == "hstat")
            m.fit(model, X, features=feats, **kw)
            ctx.true(len(m.ovo) == expect(what, names, feats), "one row per result")
    ctx.true(w.tables > 0, "the model was asked")
    ctx.true(all(same_type(X[nm].dtype, data.frame[nm].dtype) for nm in names) and X.equals(data.frame),
             "input table unchanged")
    ctx.out("tables", float(w.tables))


def expect(what, names, feats):
    k = len(feats or names)
    return k if what in ("pdi", "perm") else k * (k - 1) // 2
