"""Pairwise H-statistic."""
from itertools import combinations
from symx.lib import ODD, Data, make_model, PD, check_pairs, feature_sets

NAMES = ["b", "a", "c", "d"]
BOUNDS = ("2-3 rows of integers, booleans, dates, strings, nullable and categorical columns; 2 and 3 rows x 2 columns and 2 rows x 3 columns with every cell an arbitrary real or category; 3x3 and 4x2 "
          "with fixed distinct cells; arbitrary prediction function; batch size 0..rows*cells+1; normalised and not; "
          "all / reordered / sub-selected features; nearly coinciding cells under odd names; calls with all defaults")


def configs(tier):
    out = []
    for norm in (True, False):
        out.append({"n": 2, "spec": "nn", "how": "predict", "norm": norm, "features": "all"})
        out.append({"n": 2, "spec": "nn", "how": "proba", "norm": norm, "features": "rev"})
        out.append({"n": 2, "spec": "nnn", "how": "function", "norm": norm, "features": "sub"})
        out.append({"n": 3, "spec": "nn", "how": "function", "norm": norm, "features": "all", "bs": 4})
        out.append({"n": 3, "spec": "cn", "how": "function", "norm": norm, "features": "rev", "bs": 7})
        out.append({"n": 3, "spec": "nnn", "how": "function", "norm": norm, "features": "subrev", "fixed": True, "bs": 2000})
        out.append({"n": 4, "spec": "nn", "how": "function", "norm": norm, "features": "all", "fixed": True, "bs": 2000})
    out.append({"n": 2, "spec": "nnn", "how": "function", "norm": False, "features": "all", "fixed": True, "bs": 5})
    out.append({"n": 2, "spec": "nnn", "how": "function", "norm": True, "features": "all", "fixed": True, "bs": 5})
    out += [{"n": 3, "spec": "ik", "how": "function", "norm": True, "features": "all", "bs": 2000, "pool": 2},
            {"n": 3, "spec": "bK", "how": "predict", "norm": False, "features": "rev", "bs": 7, "pool": 2},
            {"n": 2, "spec": "Lsd", "how": "proba", "norm": True, "features": "sub", "bs": 3, "show": True},
            {"n": 2, "spec": "nN", "how": "predict", "norm": True, "features": "all", "bs": 3, "show": True}]
    out += [{"n": 2, "spec": "nn", "how": h, "norm": True, "features": "all", "bs": 2000, "plain": True} for h in ("predict", "proba")]
    out.append({"n": 3, "spec": "nn", "how": "function", "norm": True, "features": "rev", "fixed": "close", "bs": 7})
    if tier == "thorough":
        for norm in (True, False):
            out.append({"n": 2, "spec": "nnn", "how": "function", "norm": norm, "features": "all"})
            out.append({"n": 3, "spec": "nnn", "how": "function", "norm": norm, "features": "all", "fixed": True})
            out.append({"n": 2, "spec": "nnnn", "how": "function", "norm": norm, "features": "all", "fixed": True, "bs": 2000})
            out.append({"n": 3, "spec": "cc", "how": "function", "norm": norm, "features": "all"})
            out.append({"n": 5, "spec": "nn", "how": "function", "norm": norm, "features": "all", "fixed": True, "bs": 7})
    return out


def run(ctx, cfg):
    from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod
    n, m = cfg["n"], len(cfg["spec"])
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9), index=[5, 2, 9, 0, 1][:n])
    model, fn, pred = make_model(ctx, data, cfg["how"])
    arg, feats = feature_sets(ctx, data.names, cfg["features"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m)
    if cfg.get("plain"):        # documented defaults
        meth = FriedmanHStatisticMethod()
        meth.fit(model, data.frame)
    else:
        meth = FriedmanHStatisticMethod(normalized=cfg["norm"])
        meth.fit(model, data.frame, predict_function=fn, features=arg, batchsize=bs, calculate_ova=False,
                 show_progress=cfg.get("show", False))
    ref = PD(ctx, pred, data)
    pos = {f: i for i, f in enumerate(data.names)}
    want = {}
    for f1, f2 in combinations(feats, 2):
        want[(f1, f2)] = ref.h_pair(pos[f1], pos[f2], cfg["norm"])
    check_pairs(ctx, meth.ovo, meth.method, want, "H-statistic")
    for v in meth.ovo[meth.method]:
        ctx.le(0.0, v, "H-statistic is not negative")
    ctx.out("h0", meth.ovo[meth.method].iloc[0])
