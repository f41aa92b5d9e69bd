"""One-vs-all H-statistic."""
from symx.lib import ODD, Data, make_model, PD, check_features, feature_sets

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("2-3 rows of integers, booleans, dates, strings, nullable and categorical columns; 2 and 3 rows x 2 columns, 2 rows x 3 columns with every cell an arbitrary real or category; 3x3 and 4x2 with "
          "fixed distinct cells; arbitrary prediction function; arbitrary batch size on the 2-row tables; nearly coinciding cells under odd names; calls with all defaults")


def configs(tier):
    out = []
    for norm in (True, False):
        out.append({"n": 2, "spec": "nn", "how": "predict", "norm": norm, "features": "all"})
        out.append({"n": 2, "spec": "nn", "how": "proba", "norm": norm, "features": "rev", "bs": 3})
        out.append({"n": 2, "spec": "nnc", "how": "function", "norm": norm, "features": "sub", "bs": 3})
        out.append({"n": 3, "spec": "nn", "how": "function", "norm": norm, "features": "all", "bs": 4})
        out.append({"n": 3, "spec": "nnn", "how": "function", "norm": norm, "features": "subrev", "fixed": True, "bs": 2000})
        out.append({"n": 4, "spec": "nn", "how": "function", "norm": norm, "features": "all", "fixed": True, "bs": 2000})
    out += [{"n": 3, "spec": "ik", "how": "function", "norm": True, "features": "all", "bs": 2000, "pool": 2},
            {"n": 3, "spec": "bK", "how": "predict", "norm": False, "features": "rev", "bs": 7, "pool": 2},
            {"n": 2, "spec": "Ls", "how": "proba", "norm": True, "features": "all", "bs": 3, "show": True},
            {"n": 2, "spec": "nf", "how": "predict", "norm": True, "features": "all", "bs": 3, "show": True}]
    out += [{"n": 2, "spec": "nn", "how": h, "norm": True, "features": "all", "bs": 2000, "plain": True} for h in ("predict", "proba")]
    out.append({"n": 3, "spec": "nn", "how": "function", "norm": True, "features": "rev", "fixed": "close", "bs": 7})
    if tier == "thorough":
        for norm in (True, False):
            out.append({"n": 2, "spec": "nnn", "how": "function", "norm": norm, "features": "all"})
            out.append({"n": 3, "spec": "nnn", "how": "function", "norm": norm, "features": "all", "fixed": True})
            out.append({"n": 3, "spec": "nn", "how": "function", "norm": norm, "features": "all"})
            out.append({"n": 3, "spec": "cc", "how": "function", "norm": norm, "features": "all"})
    return out


def run(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9), index=[5, 2, 9, 0, 1][:n])
    model, fn, pred = make_model(ctx, data, cfg["how"])
    arg, feats = feature_sets(ctx, data.names, cfg["features"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m)
    if cfg.get("plain"):        # documented defaults
        meth = FriedmanHStatisticMethod()
        meth.fit(model, data.frame)
    else:
        meth = FriedmanHStatisticMethod(normalized=cfg["norm"])
        meth.fit(model, data.frame, predict_function=fn, features=arg, batchsize=bs,
                 show_progress=cfg.get("show", False))
    ref = PD(ctx, pred, data)
    pos = {f: i for i, f in enumerate(data.names)}
    want = {f: ref.h_all(pos[f], cfg["norm"]) for f in feats}
    check_features(ctx, meth.ova, want, "one-vs-all H-statistic", col=meth.method)
    for v in meth.ova[meth.method]:
        ctx.le(0.0, v, "one-vs-all H-statistic is not negative")
    ctx.out("h0", meth.ova[meth.method].iloc[0])
