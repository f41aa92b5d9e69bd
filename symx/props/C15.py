"""Minimal depth importance."""
from symx.props.C14 import fit, forest, highest, configs as _cfgs, BOUNDS  # noqa
from symx.lib import check_features


def configs(tier):
    return _cfgs(tier)


def run(ctx, cfg):
    roots, cols, model = forest(ctx, cfg)
    meth = fit(ctx, cfg, model)
    want = {}
    for i, f in enumerate(cols):
        v = [float(h[0].depth) for h in (highest(r, i) for r in roots) if h]
        if v:
            want[f] = ctx.mean(v)
    check_features(ctx, meth.feature_importance, want, "minimal depth importance", ascending=True)
