"""Partial dependence based importance."""
from symx.lib import ODD, Data, make_model, PD, check_features, feature_sets

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("2-3 rows of integers, booleans, dates, strings, nullable and categorical columns; 2..4 rows x 1..3 columns, arbitrary real or category cells (fixed distinct cells for 4x2 and 3x3), arbitrary "
          "prediction function, arbitrary batch size; direct call and through both partial dependence based methods; nearly coinciding cells under odd names; calls with all defaults")


def configs(tier):
    out = []
    for via in ("direct", "hstat", "greenwell"):
        out.append({"n": 2, "spec": "nn", "how": "predict", "features": "all", "via": via})
        out.append({"n": 3, "spec": "cn", "how": "function", "features": "rev", "via": via, "bs": 4} if via != "greenwell" else
                   {"n": 2, "spec": "cn", "how": "function", "features": "rev", "via": via, "bs": 4})
    out += [{"n": 3, "spec": "nn", "how": "proba", "features": "all", "via": "direct"},
            {"n": 3, "spec": "cc", "how": "function", "features": "all", "via": "direct"},
            {"n": 3, "spec": "n", "how": "function", "features": "all", "via": "direct"},
            {"n": 2, "spec": "cnn", "how": "function", "features": "sub", "via": "direct"},
            {"n": 2, "spec": "nnc", "how": "function", "features": "subrev", "via": "direct"},
            {"n": 4, "spec": "nn", "how": "function", "features": "all", "via": "direct", "fixed": True},
            {"n": 3, "spec": "nnn", "how": "function", "features": "all", "via": "direct", "fixed": True}]
    out += [{"n": 3, "spec": "ik", "how": "function", "features": "all", "via": "direct", "bs": 2000, "pool": 2},
            {"n": 3, "spec": "bKN", "how": "predict", "features": "rev", "via": "direct", "bs": 7, "pool": 2, "show": True},
            {"n": 3, "spec": "Ks", "how": "predict", "features": "rev", "via": "hstat", "bs": 7, "pool": 2, "show": True},
            {"n": 2, "spec": "Lsd", "how": "proba", "features": "sub", "via": "greenwell", "bs": 3, "show": True}]
    out += [{"n": 2, "spec": "nn", "how": h, "features": "all", "via": "direct", "bs": 2000, "plain": True} for h in ("predict", "proba")]
    out.append({"n": 3, "spec": "nnn", "how": "function", "features": "rev", "via": "direct", "fixed": "close", "bs": 7})
    if tier == "thorough":
        out += [{"n": 3, "spec": "nn", "how": "function", "features": "all", "via": v} for v in ("hstat", "greenwell")]
        out += [{"n": 4, "spec": "nn", "how": "function", "features": "all", "via": "direct", "bs": 2000},
                {"n": 2, "spec": "nncc", "how": "function", "features": "all", "via": "direct", "bs": 5},
                {"n": 3, "spec": "ncn", "how": "function", "features": "all", "via": "direct", "bs": 5}]
    return out


def run(ctx, cfg):
    from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9), index=[5, 2, 9, 0, 1][:n])
    model, fn, pred = make_model(ctx, data, cfg["how"])
    arg, feats = feature_sets(ctx, data.names, cfg["features"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m)
    if cfg["via"] == "direct":
        meth = PartialDependenceBasedImportance()
        if cfg.get("plain"):        # documented defaults
            got = meth.importance(model, data.frame)
        else:
            got = meth.importance(model, data.frame, predict_function=fn, features=arg, batchsize=bs,
                                  show_progress=cfg.get("show", False))
        ctx.true(got is meth.feature_importance or got.equals(meth.feature_importance), "returned and stored tables agree")
    else:
        meth = (FriedmanHStatisticMethod if cfg["via"] == "hstat" else GreenwellMethod)()
        kw = {"calculate_ova": False} if cfg["via"] == "hstat" else {}
        meth.fit(model, data.frame, predict_function=fn, features=arg, batchsize=bs,
                 show_progress=cfg.get("show", False), **kw)
        got = meth.feature_importance
    ref = PD(ctx, pred, data)
    pos = {f: i for i, f in enumerate(data.names)}
    check_features(ctx, got, {f: ref.importance(pos[f]) for f in feats}, "importance")
    ctx.out("i0", got["Importance"].iloc[0])
