"""Additivity index."""
from symx.lib import ODD, Data, make_model, PD, iszero

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("2-3 rows of integers, booleans, dates, strings, nullable and categorical columns; 2..4 rows x 1..3 columns, arbitrary cells up to 3x2 and 2x3 (fixed distinct cells above), arbitrary or "
          "arbitrary-additive prediction function with non-constant predictions, arbitrary batch size. The exact-1 claim for additive models is checked on "
          "tables where it holds by construction: any table; nearly coinciding cells under odd names; calls with all defaults")


def configs(tier):
    out = []
    for add in (False, True):
        out += [{"n": 2, "spec": "nn", "how": "predict", "add": add},
                {"n": 2, "spec": "nc", "how": "proba", "add": add},
                {"n": 3, "spec": "nn", "how": "function", "add": add, "bs": 4},
                {"n": 3, "spec": "cn", "how": "function", "add": add, "bs": 4},
                {"n": 2, "spec": "nnn", "how": "function", "add": add, "bs": 3},
                {"n": 3, "spec": "n", "how": "function", "add": add},
                {"n": 3, "spec": "nnn", "how": "function", "add": add, "fixed": True},
                {"n": 4, "spec": "nn", "how": "function", "add": add, "fixed": True}]
    for add in (False, True):
        out += [{"n": 3, "spec": "ik", "how": "function", "add": add, "bs": 4, "pool": 2},
                {"n": 2, "spec": "bKn", "how": "predict", "add": add, "bs": 4, "show": True},
                {"n": 3, "spec": "sL", "how": "proba", "add": add, "bs": 2000, "pool": 2, "show": True}]
    out += [{"n": 2, "spec": "nn", "how": h, "add": False, "bs": 2000, "plain": True} for h in ("predict", "proba")]
    out.append({"n": 3, "spec": "nn", "how": "function", "add": False, "fixed": "close", "bs": 7})
    if tier == "thorough":
        for add in (False, True):
            out += [{"n": 3, "spec": "nn", "how": "function", "add": add},
                    {"n": 4, "spec": "nn", "how": "function", "add": add, "bs": 2000},
                    {"n": 2, "spec": "nnnn", "how": "function", "add": add, "bs": 7},
                    {"n": 4, "spec": "nnn", "how": "function", "add": add, "fixed": True}]
    return out


def run(ctx, cfg):
    from artemis.additivity import AdditivityMeter
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9), index=[5, 2, 9, 0, 1][:n])
    model, fn, pred = make_model(ctx, data, cfg["how"], additive=cfg["add"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m)
    ref = PD(ctx, pred, data)
    t, b = ref.additivity()
    if iszero(ctx, b):       # constant predictions: the index is undefined
        return
    before = data.frame.copy()
    meter = AdditivityMeter()
    if cfg.get("plain"):            # documented defaults
        got = meter.fit(model, data.frame)
    else:
        got = meter.fit(model, data.frame, predict_function=fn, batchsize=bs, show_progress=cfg.get("show", False))
    ctx.eq(got, 1 - t / b, "additivity index")
    ctx.eq(meter.additivity_index, got, "stored additivity index")
    ctx.le(got, 1.0, "additivity index does not exceed 1")
    if cfg["add"]:
        ctx.eq(got, 1.0, "additivity index of an additive model")
    ctx.out("a", got)
