"""Same random_state, same inputs: same results."""
import numpy as np
from symx import rng, perf
from symx.lib import Data, make_model
from symx.props.C02 import results, compare

NAMES = ["b", "a", "c"]
BOUNDS = ("3 rows x 2 columns, samples of 2 rows, 1-2 permutation repeats, one or two consecutive fits per object, every "
          "draw of the generator; arbitrary prediction function / metric; other generators used in between; random_state a positive number or zero")
STUBS = ["random generator: same seed, same stream of draws; unseeded generators and global state are arbitrary"]


def configs(tier):
    out = []
    for who in ("H", "G", "A"):
        for fits in (1, 2):
            out.append({"who": who, "fits": fits, "n": 2})
    for who in ("S", "P"):
        for n in (None, 2) if who == "S" else (None,):
            out.append({"who": who, "fits": 1, "n": n})
            if n or who == "P":
                out.append({"who": who, "fits": 2, "n": n})
    return out


def make(who, metric, seed):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
    from artemis.importance_methods.model_agnostic import PermutationImportance
    from artemis.additivity import AdditivityMeter
    return {"H": lambda: FriedmanHStatisticMethod(random_state=seed), "G": lambda: GreenwellMethod(random_state=seed),
            "A": lambda: AdditivityMeter(random_state=seed),
            "S": lambda: SejongOhMethod(metric, random_state=seed),
            "P": lambda: PermutationImportance(metric, random_state=seed)}[who]()


def run(ctx, cfg):
    who, n = cfg["who"], 3
    data = Data(ctx, n, NAMES[:2], "nn", index=[4, 2, 7], fixed=True)
    metric = perf.make_metric(ctx, "regression")
    y = perf.targets(n, "array", data.index)
    if who in "SP":
        model = perf.CodeModel(data)
        if cfg["n"] is None:
            rng.restrict(lambda n: [tuple(range(1, n)) + (0,), (1, 0) + tuple(range(2, n))])
        elif cfg["fits"] == 2:
            rng.restrict(lambda n: [(1, 0)] if n == 2 else [tuple(range(n))])
    else:
        model, fn, pred = make_model(ctx, data, "predict")
        if who == "A":
            for a in range(n):
                for b in range(a):
                    ctx.assume(pred.ref(a) != pred.ref(b))

    def once(o):
        r = []
        for _ in range(cfg["fits"]):
            if who == "P":
                o.importance(model, data.frame, y, n_repeat=1)
            elif who == "S":
                o.fit(model, data.frame, y, n=cfg["n"], n_repeat=1)
            else:
                o.fit(model, data.frame, n=cfg["n"])
            r.append(results(o))
            if hasattr(o, "X_sampled"):
                ctx_rows.append(list(o.X_sampled.index))
        return r
    ctx_rows = []
    seed = ctx.pick("random_state", [7, 0]) if cfg["fits"] == 1 else 7
    a = make(who, metric, seed)
    other = make(who, metric, 8)            # an unrelated object in between must not matter
    np.random.default_rng(None).permutation(2)
    ra, rows_a = once(a), list(ctx_rows)
    ctx_rows.clear()
    b = make(who, metric, seed)
    rb, rows_b = once(b), list(ctx_rows)
    ctx.true(rows_a == rows_b, "same random_state, same sampled rows")
    for x, z in zip(ra, rb):
        compare(ctx, x, z, "same random_state, same result")
