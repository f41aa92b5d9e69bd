"""Greenwell interaction."""
from itertools import combinations
from symx.lib import ODD, Data, make_model, PD, check_pairs, feature_sets

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("2-3 rows of integers, booleans, dates, strings, nullable and categorical columns; 2 and 3 rows x 2 columns, 2 rows x 3 columns with every cell an arbitrary real or category (ties and constant "
          "columns included); 3x3 and 4x2 with fixed distinct cells; arbitrary prediction function; nearly coinciding cells under odd names; calls with all defaults")


def configs(tier):
    out = [
        {"n": 2, "spec": "nn", "how": "predict", "features": "all"},
        {"n": 2, "spec": "cn", "how": "proba", "features": "rev", "bs": 3},
        {"n": 2, "spec": "nnc", "how": "function", "features": "sub", "bs": 3},
        {"n": 3, "spec": "nn", "how": "function", "features": "all", "bs": 4},
        {"n": 3, "spec": "nc", "how": "function", "features": "rev", "bs": 7, "pool": 2},
        {"n": 3, "spec": "cc", "how": "function", "features": "all", "bs": 2000, "pool": 2},
        {"n": 3, "spec": "nnn", "how": "function", "features": "subrev", "fixed": True, "bs": 2000},
        {"n": 2, "spec": "nnn", "how": "function", "features": "all", "fixed": True, "bs": 5},
        {"n": 4, "spec": "nn", "how": "function", "features": "all", "fixed": True, "bs": 2000},
    ]
    out += [{"n": 3, "spec": "ik", "how": "function", "features": "all", "bs": 2000, "pool": 2},
            {"n": 3, "spec": "bK", "how": "predict", "features": "rev", "bs": 7, "pool": 2},
            {"n": 2, "spec": "Lsd", "how": "proba", "features": "sub", "bs": 3, "show": True},
            {"n": 2, "spec": "nN", "how": "predict", "features": "all", "bs": 3, "show": True}]
    out += [{"n": 2, "spec": "nn", "how": h, "features": "all", "bs": 2000, "plain": True} for h in ("predict", "proba")]
    out.append({"n": 3, "spec": "nn", "how": "function", "features": "rev", "fixed": "close", "bs": 7})
    if tier == "thorough":
        out += [{"n": 3, "spec": "nc", "how": "function", "features": "rev", "bs": 7},
                {"n": 3, "spec": "cc", "how": "function", "features": "all", "bs": 2000},
                {"n": 2, "spec": "nnn", "how": "function", "features": "all", "bs": 5},
                {"n": 3, "spec": "nn", "how": "function", "features": "all"},
                {"n": 3, "spec": "nnn", "how": "function", "features": "all", "fixed": True},
                {"n": 3, "spec": "ncn", "how": "function", "features": "all", "bs": 2000, "fixed": True},
                {"n": 5, "spec": "nn", "how": "function", "features": "all", "fixed": True, "bs": 7}]
    return out


def run(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import GreenwellMethod
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9),
                index=[5, 2, 9, 0, 1][:n])
    model, fn, pred = make_model(ctx, data, cfg["how"])
    arg, feats = feature_sets(ctx, data.names, cfg["features"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m)
    meth = GreenwellMethod()
    if cfg.get("plain"):        # documented defaults
        meth.fit(model, data.frame)
    else:
        meth.fit(model, data.frame, predict_function=fn, features=arg, batchsize=bs,
                 show_progress=cfg.get("show", False))
    ref = PD(ctx, pred, data)
    pos = {f: i for i, f in enumerate(data.names)}
    want = {(a, b): ref.greenwell(pos[a], pos[b]) for a, b in combinations(feats, 2)}
    check_pairs(ctx, meth.ovo, meth.method, want, "Greenwell value")
    for v in meth.ovo[meth.method]:
        ctx.le(0.0, v, "Greenwell value is not negative")
    ctx.out("g0", meth.ovo[meth.method].iloc[0])
