"""Explores every path of a property's harnesses and decides the obligations.

Processes: the parent schedules; each of J workers holds (a) the symbolic environment with the project's
source loaded from /repo, and (b) a forked child with the *unpatched* code for replays.  A candidate
counterexample becomes a violation only after the replay child reproduces it.
"""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import zlib
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


# ------------------------------------------------------------------------------- (de)serialising cases
def case_json(case):
    return {"vars": {k: str(v) for k, v in case.get("vars", {}).items()},
            "choices": dict(case.get("choices", {})), "salt": case.get("salt", 0)}


# ------------------------------------------------------------------------------- concrete replay
def run_concrete(prop, cfg, case, tol=1e-6):
    """Runs the harness on the unpatched code.  -> dict(status, failures, outputs)"""
    import contextlib
    import io
    import warnings
    import numpy as np
    from . import rng
    from .ctx import RealCtx, Skip
    mod = importlib.import_module("symx.props." + prop)
    saved = {n: getattr(np.random, n) for n in rng.overrides()}
    ctx = RealCtx(case, tol)
    rng.set_ctx(ctx)
    for n, f in rng.overrides().items():
        setattr(np.random, n, f)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter("ignore")
            mod.run(ctx, cfg)
        st = "fail" if ctx.failures else "pass"
        exc = None
    except Skip:
        st, exc = "skip", None
    except Exception as e:
        st, exc = "raise", "".join(traceback.format_exception(e)[-6:])
        ctx.failures.append(("exception", "%s: %s" % (type(e).__name__, e)))
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
    outs = {}
    for k, v in ctx.outputs.items():
        try:
            outs[k] = float(v)
        except Exception:
            outs[k] = str(v)
    return {"status": st, "failures": [(a, str(b)[:300]) for a, b in ctx.failures[:10]], "outputs": outs,
            "exc": exc, "checked": ctx.checked}


def _replay_child(conn, prop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import patches, rng
    patches.install_concrete()
    rng.patch_pandas_random()
    while True:
        try:
            m = conn.recv()
        except EOFError:
            os._exit(0)
        if m is None:
            os._exit(0)
        cfg, case = m
        try:
            r = run_concrete(prop, cfg, case)
        except BaseException as e:
            r = {"status": "error", "failures": [], "outputs": {}, "exc": repr(e), "checked": 0}
        conn.send(r)


class Replayer:
    """lazy child process with the unpatched code (must be forked before the symbolic install)"""

    def __init__(self, prop):
        self.prop = prop
        a, b = mp.Pipe()
        self.p = mp.Process(target=_replay_child, args=(b, prop), daemon=True)
        self.p.start()
        b.close()
        self.c = a
        self.dead = False

    def run(self, cfg, case, timeout=90):
        if self.dead:
            return {"status": "error", "failures": [], "outputs": {}, "exc": "replay process lost", "checked": 0}
        try:
            self.c.send((cfg, case))
            if not self.c.poll(timeout):
                self.dead = True
                self.p.kill()
                return {"status": "error", "failures": [], "outputs": {}, "exc": "replay timeout", "checked": 0}
            return self.c.recv()
        except (EOFError, OSError) as e:
            self.dead = True
            return {"status": "error", "failures": [], "outputs": {}, "exc": repr(e), "checked": 0}


# ------------------------------------------------------------------------------- symbolic worker
_FUNCS = set()


def _monitor(repo):
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return
    pre = os.path.join(repo, "artemis") + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(pre):
            _FUNCS.add(os.path.relpath(f, repo) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


class Result(dict):
    pass


def explore(mod, prop, cfg, prefixes, budget, seed, replayer, opts, spread=False):
    """DFS from `prefixes` for `budget` seconds."""
    import contextlib
    import io
    import warnings
    import numpy as np
    from . import sym, rng
    from .ctx import SymCtx
    from .engine import Path, PathAbort, Stats
    stats = Stats()
    stack = list(prefixes)
    relaxed = 0
    t0 = time.time()
    out = {"cfg": cfg, "violations": [], "unreproduced": [], "unsupported": [], "validated": 0, "mismatch": []}
    while stack and time.time() - t0 < budget:
        prefix = stack.pop(0) if spread else stack.pop()
        path = Path(prefix, stats, seed=seed, nl_timeout=opts["nl_timeout"])
        sym.set_engine(path)
        ctx = SymCtx(path)
        rng.set_ctx(ctx)
        exc = None
        done = False
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter("ignore")
                mod.run(ctx, cfg)
            done = True
        except PathAbort:
            stats.bump("paths_infeasible")
        except Exception as e:
            exc = e
        stack.extend(path.pending)
        if done:
            stats.bump("paths")
            for lb in path.inconclusive:
                stats.bump("inconclusive: " + lb)
            if path.incomplete:
                stats.bump("paths_incomplete")
            elif not path.candidates:
                stats.bump("paths_decided")
        # --- undecided obligations: the same choices with generic values through the unpatched code
        if path.inconclusive and not path.candidates and relaxed < 12:
            for k in range(3):
                relaxed += 1
                cse = {"vars": {}, "choices": dict(path.choices), "salt": "%s/%s/%s" % (seed, len(path.log), k)}
                r = replayer.run(cfg, cse)
                if r["status"] in ("fail", "raise"):
                    out["violations"].append({"label": path.inconclusive[0], "cfg": cfg, "case": case_json(cse),
                                              "replay": r, "how": "same choices as an undecided obligation"})
                    break
            if len(out["violations"]) >= opts.get("stop_after", 1):
                break
        # --- counterexamples
        if path.candidates:
            seen = {}
            for c in path.candidates:
                seen.setdefault(c.label, []).append(c)
            reproduced = False
            last = None
            for label, cs in list(seen.items())[:4]:
                for c in cs[:3]:
                    r = replayer.run(cfg, c.case)
                    last = (label, c, r)
                    if r["status"] in ("fail", "raise"):
                        out["violations"].append({"label": label, "cfg": cfg, "case": case_json(c.case),
                                                  "replay": r, "how": c.detail})
                        reproduced = True
                        break
                if reproduced:
                    break
            if not reproduced:
                # degenerate float models: generic completions of the same path
                for _ in range(3):
                    case = path.sample_case(2)
                    if case is None:
                        break
                    r = replayer.run(cfg, case)
                    if r["status"] in ("fail", "raise"):
                        out["violations"].append({"label": last[0], "cfg": cfg, "case": case_json(case),
                                                  "replay": r, "how": "generic completion of the failing path"})
                        reproduced = True
                        break
            if not reproduced:
                stats.bump("unreproduced_candidates")
                if len(out["unreproduced"]) < 5:
                    out["unreproduced"].append({"label": last[0], "case": case_json(last[1].case),
                                                "replay": last[2]})
            elif len(out["violations"]) >= opts.get("stop_after", 1):
                break
        if exc is not None:
            stats.bump("paths_exception")
            case = path.sample_case(4)
            hit = None
            tried = []
            if case is not None:
                tried.append(case)
            for s in range(opts["fallback_cases"]):
                tried.append({"vars": {}, "choices": dict(path.choices), "salt": "%s/%s/%s" % (seed, len(path.log), s)})
            for cse in tried:
                r = replayer.run(cfg, cse)
                if r["status"] in ("fail", "raise"):
                    hit = (cse, r)
                    break
                if r["status"] == "pass":
                    stats.bump("outside_runs_passed")
            if hit:
                out["violations"].append({"label": "exception on a symbolic path: %s" % type(exc).__name__, "cfg": cfg,
                                          "case": case_json(hit[0]), "replay": hit[1], "how": "path model"})
                if len(out["violations"]) >= opts.get("stop_after", 1):
                    break
            else:
                stats.bump("paths_unsupported")
                if len(out["unsupported"]) < 3:
                    out["unsupported"].append("".join(traceback.format_exception(exc)[-8:])[-1800:])
        # --- translation validation: this path's model through the unpatched code
        if done and not path.candidates and path.rng.random() < opts["validate_p"] and not path.degenerate():
            case = path.sample_case(3)
            if case is not None:
                r = replayer.run(cfg, case)
                ev = path.numeric(case["vars"])
                bad = None
                if r["status"] != "pass":
                    bad = "replay status %s %s" % (r["status"], r["failures"][:2])
                else:
                    for k, v in ctx.outputs.items():
                        if isinstance(v, sym.Sym):
                            v = ev(v.p)
                        w = r["outputs"].get(k)
                        try:
                            v = float(v)
                            same = abs(v - w) <= 1e-6 * (1 + abs(v) + abs(w)) or v != v and w != w or v == w
                        except (TypeError, ValueError):
                            same = str(v) == w
                        if not same:
                            bad = "%s: symbolic %r, real %r" % (k, v, w)
                            break
                if bad and r["status"] in ("fail", "raise"):
                    # the real code breaks the property on a case of this path: an alarm if it is no rounding accident
                    again = []
                    for _ in range(3):
                        cse = path.sample_case(3)
                        if cse is not None:
                            again.append((cse, replayer.run(cfg, cse)))
                    hits = [(c, q) for c, q in again if q["status"] in ("fail", "raise")]
                    if len(hits) >= 2:
                        lb = hits[0][1]["failures"][0][0] if hits[0][1]["failures"] else "exception in the real code"
                        out["violations"].append({"label": lb, "cfg": cfg, "case": case_json(hits[0][0]),
                                                  "replay": hits[0][1], "how": "solver-generated case of a path"})
                        if len(out["violations"]) >= opts.get("stop_after", 1):
                            break
                if bad:
                    stats.bump("validation_mismatch")
                    if len(out["mismatch"]) < 3:
                        out["mismatch"].append({"what": bad, "case": case_json(case)})
                else:
                    out["validated"] += 1
                    if r["status"] == "pass" and len(out.setdefault("samples", [])) < 1:
                        out["samples"].append({"cfg": cfg, "case": case_json(case), "outputs": r["outputs"]})
    out["left"] = stack
    out["stats"] = dict(stats)
    return out


def _worker(conn, prop, opts):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    rep = Replayer(prop)
    from . import patches, rng
    rng.patch_pandas_random()
    patches.install(rng.overrides())
    _monitor(patches.REPO)
    mod = importlib.import_module("symx.props." + prop)
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
    except Exception:
        pass
    while True:
        m = conn.recv()
        if m is None:
            rep.p.kill()
            os._exit(0)
        cfg, prefixes, budget, spread = m
        try:
            r = explore(mod, prop, cfg, prefixes, budget, SEED, rep, opts, spread)
        except BaseException as e:
            r = {"cfg": cfg, "error": "".join(traceback.format_exception(e))[-3000:], "left": [], "stats": {},
                 "violations": [], "unreproduced": [], "unsupported": [], "validated": 0, "mismatch": []}
        r["funcs"] = sorted(_FUNCS)
        conn.send(r)


def preload():
    import numpy, pandas, sklearn.ensemble, sklearn.inspection, tqdm, scipy.stats  # noqa
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot, seaborn, networkx  # noqa
    import logging
    logging.disable(logging.CRITICAL)


def run_property(prop, tier, jobs=8, budget=None, only=None, verbose=False, stop=True):
    preload()
    os.environ["VERIF_TIER"] = tier
    mod_src = importlib.import_module("symx.propmeta")
    meta = mod_src.load(prop)
    cfgs = meta.configs(tier)
    if only is not None:
        cfgs = [c for c in cfgs if only in json.dumps(c)]
    budget = budget or meta.budget(tier)
    opts = {"nl_timeout": 4000 if tier == "quick" else 20000, "fallback_cases": 4,
            "validate_p": meta.validate_p(tier), "stop_after": 1 if stop else 50}
    t0 = time.time()
    deadline = t0 + budget
    conns = []
    for _ in range(jobs):
        a, b = mp.Pipe()
        p = mp.Process(target=_worker, args=(b, prop, opts))
        p.start()
        b.close()
        conns.append((a, p))
    # per-config stacks
    stacks = [[cfg, [[]], 0] for cfg in cfgs]
    agg = {"violations": [], "unreproduced": [], "unsupported": [], "validated": 0, "mismatch": [], "errors": [],
           "funcs": set(), "samples": []}
    stats = {}
    percfg = {}
    busy = {}
    idle = list(range(jobs))
    rr = 0
    stopped = False
    while True:
        now = time.time()
        # hand out work
        while idle and not stopped and now < deadline:
            cand = [s for s in stacks if s[1]]
            if not cand:
                break
            rr += 1
            cand.sort(key=lambda s: s[2])
            s = cand[0]
            s[2] += 1
            nidle = len(idle)
            k = 1 if len(s[1]) <= nidle else max(1, len(s[1]) // (2 * jobs))
            # hand out the shallow end (big subtrees) first
            chunk, s[1] = s[1][:k], s[1][k:]
            w = idle.pop()
            total = sum(len(x[1]) for x in stacks)
            few = total < 2 * jobs
            b = 0.4 if few else 3.0
            b = max(0.2, min(b, deadline - now))
            try:
                conns[w][0].send((s[0], chunk, b, few))
                busy[w] = s
            except (BrokenPipeError, OSError):
                agg["errors"].append("worker lost")
        if not busy:
            break
        ready = mp.connection.wait([conns[w][0] for w in busy], timeout=1.0)
        if not ready and time.time() > deadline + 60:
            break
        for c in ready:
            w = next(i for i, (x, _) in enumerate(conns) if x is c)
            s = busy.pop(w)
            try:
                r = c.recv()
            except (EOFError, OSError):
                agg["errors"].append("worker died on %r" % (s[0],))
                continue
            idle.append(w)
            s[1].extend(r["left"])
            if "error" in r:
                agg["errors"].append(r["error"])
            for k in ("violations", "unreproduced", "unsupported", "mismatch"):
                agg[k].extend(r[k])
            agg["samples"].extend(r.get("samples", []))
            agg["validated"] += r["validated"]
            agg["funcs"].update(r["funcs"])
            pc = percfg.setdefault(json.dumps(s[0], sort_keys=True), {})
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
                pc[k] = pc.get(k, 0) + v
            if agg["violations"] and stop:
                stopped = True
    left = sum(len(s[1]) for s in stacks)
    for c, p in conns:
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for c, p in conns:
        p.join(2)
        if p.is_alive():
            p.kill()
    agg["left"] = left
    agg["stats"] = stats
    agg["percfg"] = percfg
    agg["wall"] = time.time() - t0
    agg["cfgs"] = len(cfgs)
    agg["meta"] = meta
    return agg
