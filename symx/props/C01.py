"""Partial dependence values are the exact averages, for every table, model and batch size."""
from symx.lib import ODD, Data, make_model, uniq, pd_ref

BOUNDS = ("tables up to 3 rows x 2 columns and 2 rows x 3 columns; every cell an arbitrary real or category; "
          "2 and 3 rows x 2 columns of integers, booleans, single precision, nullable integers, dates, strings and pandas categories; 3x2 and 2x3 with nearly coinciding cells and odd names; thorough: 4 rows or 4 columns, 3x3")


def configs(tier):
    out = []
    for how in ("predict", "proba", "function"):
        out.append({"n": 2, "m": 2, "spec": "nn", "how": how})
    for spec in ("nn", "nc", "cn", "cc"):
        out.append({"n": 3, "m": 2, "spec": spec, "how": "function"})
    out.append({"n": 2, "m": 3, "spec": "nnn", "how": "function"})
    out.append({"n": 2, "m": 3, "spec": "cnc", "how": "function"})
    for spec in ("ik", "Kn", "bN", "sf", "Li"):
        out.append({"n": 2, "m": 2, "spec": spec, "how": "function"})
        out.append({"n": 3, "m": 2, "spec": spec, "how": "predict", "pool": 2, "bs": 7})
    out.append({"n": 3, "m": 2, "spec": "nn", "how": "function", "fixed": "close"})
    out.append({"n": 2, "m": 3, "spec": "nnn", "how": "predict", "fixed": "close"})
    if tier == "thorough":
        for f in (True, "close"):
            out += [{"n": 3, "m": 3, "spec": "nnn", "how": "function", "fixed": f}, {"n": 4, "m": 2, "spec": "nn", "how": "function", "fixed": f},
                    {"n": 2, "m": 4, "spec": "nnnn", "how": "function", "fixed": f}]
        out += [{"n": 4, "m": 2, "spec": "nn", "how": "function", "bs": b} for b in (3, 13)]
        out += [{"n": 2, "m": 4, "spec": "ncnn", "how": "function", "bs": b} for b in (3, 13)]
        out += [{"n": 3, "m": 3, "spec": "nnn", "how": "function", "bs": 13}]
    return out


NAMES = ["b", "a", "c", "d"]


def run(ctx, cfg):
    from artemis._utilities.pd_calculator import PartialDependenceCalculator
    n, m = cfg["n"], cfg["m"]
    data = Data(ctx, n, (ODD if cfg.get("fixed") == "close" else NAMES)[:m], cfg["spec"],
                index=[7, 3, 7, 1][:n], fixed=cfg.get("fixed", False), pool=cfg.get("pool", 9))
    model, fn, pred = make_model(ctx, data, cfg["how"])
    bs = cfg["bs"] if "bs" in cfg else ctx.int("batchsize", 0, n * n * m + 1)
    calc = PartialDependenceCalculator(model, data.frame, fn, bs)
    rows = range(n)
    X = data.frame.copy()

    def cells(c):
        return [data.cells[data.names[c]][r] for r in rows]
    calc.calculate_pd_single()
    calc.calculate_pd_pairs()
    calc.calculate_pd_minus_single()
    for c, f in enumerate(data.names):
        got = calc.get_pd_single(f, feature_values=cells(c))
        ctx.eqs(got, [pd_ref(ctx, pred, data, rows, {c: r}) for r in rows], "single PD of %s" % f)
        allv = calc.get_pd_single(f)
        ctx.eqs(allv, [pd_ref(ctx, pred, data, rows, {c: r}) for r in uniq(ctx, data, c)], "single PD vector of %s" % f)
        got = calc.get_pd_minus_single(f)
        ctx.eqs(got, [pd_ref(ctx, pred, data, rows, {o: r for o in range(m) if o != c}) for r in rows],
                "all-but-one PD of %s" % f)
        ctx.out("s%d" % c, allv[0])
    for c1 in range(m):
        for c2 in range(m):
            if c1 == c2:
                continue
            vals = [(data.cells[data.names[c1]][r1], data.cells[data.names[c2]][r2]) for r1 in rows for r2 in rows]
            got = calc.get_pd_pairs(data.names[c1], data.names[c2], feature_values=vals)
            want = [pd_ref(ctx, pred, data, rows, {c1: r1, c2: r2}) for r1 in rows for r2 in rows]
            ctx.eqs(got, want, "pair PD of %s,%s" % (data.names[c1], data.names[c2]))
