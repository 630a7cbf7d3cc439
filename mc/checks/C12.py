"""Stopping of PSO/DE at every threshold, and histories of runs of one object."""
import itertools
import os
import pickle

import numpy as np

from mc import ea

BOUNDS = ("population 3, 3 generations: all monotone and non-monotone sequences of "
          "generation bests over 4 values x 6 thresholds (below, between, at, above "
          "the values) x 4 settings; all histories of up to 2 (3) earlier runs "
          "over 5 x the same final run, compared with a fresh object; 10 histories of 6 (5, 9) earlier runs; printing and "
          "saving on and off")
ASSUMPTIONS = ["objectives return one finite value per point"]


def stopping(levels, gen):
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        stop = ctx.choose("target", [None, -1.5, -1.0, 0.0, 0.5, 10.0])
        mins = [ctx.choose("best%d" % k, levels) for k in range(gen + 1)]
        pos = ctx.choose("where", [0, 2])
        rows = [[m if i == pos else m + 3.0 for i in range(3)] for m in mins]
        rec = ea.Recorder(ea.Table(rows))
        box = np.array([[-5.0, 10.0], [0.0, 15.0]])
        with ea.draws(3):
            res, by, bx = ea.ALGOS[algo](3, gen).run_optimizer(
                rec, 2, box, stopping_error=stop)
        ctx.op(algo)
        want = gen
        if stop is not None:
            for g in range(1, gen + 1):
                if min(mins[:g + 1]) < stop:
                    want = g
                    break
        ctx.require(len(rec.calls) == want + 1,
                    lambda: "%s with target %r on bests %s carried out %d generations, expected %d"
                    % (algo, stop, mins, len(rec.calls) - 1, want))
        ctx.require(len(res["best_y_historical"]) == want + 1, "history length after stopping")
        ctx.require(float(np.ravel(by)[0]) == min(mins[:want + 1]), "best value after stopping")
        ctx.state((algo, stop, tuple(mins), pos))
        ctx.outcome((stop, want))
    return fn


PRE = {
    "none": None,
    "other problem": dict(box=[[0.0, 1.0]], f="waves"),
    "same problem": dict(box=ea.BOXES["branin"], f="sphere"),
    "stopped early": dict(box=ea.BOXES["branin"], f="sphere", stopping_error=1e9),
    "more variables": dict(box=ea.BOXES["mixed3"], f="slope", args=(1, 2)),
    "failed": dict(box=ea.BOXES["branin"], f=None),
}


def call(opt, box, f, seed, **k):
    rec = ea.Recorder(ea.FUNCS[f] if f else _boom)
    box = np.array(box)
    np.random.seed(seed)
    r = opt.run_optimizer(func=rec, num_dim=len(box), design_space=box, **k)
    return rec, r


def _boom(x):
    raise ZeroDivisionError


def same_run(ctx, a, b, what):
    (ra, (da, ya, xa)), (rb, (db, yb, xb)) = a, b
    ctx.require(len(ra.calls) == len(rb.calls), "%s: %d calls instead of %d" % (what, len(ra.calls), len(rb.calls)))
    for g, (p, q) in enumerate(zip(ra.calls, rb.calls)):
        ctx.same(p[0], q[0], "%s: points of generation %d" % (what, g))
        ctx.require(p[1] == q[1], "%s: arguments" % what)
    ctx.same(ya, yb, what + ": best value")
    ctx.same(xa, xb, what + ": best point")
    ctx.require(set(da) == set(db), what + ": result keys")
    for k in da:
        ctx.same(np.asarray(da[k], float), np.asarray(db[k], float), "%s: results[%s]" % (what, k))


def rotated(n):
    """n earlier runs: each kind alone n times, and all in turn from each start"""
    k = [p for p in PRE if PRE[p] is not None]
    return [[p] * n for p in k] + [[k[(i + j) % len(k)] for i in range(n)] for j in range(len(k))]


def histories(depth, pres=None):
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        pre = ctx.choose("earlier runs", pres) if pres else [ctx.choose("earlier%d" % i, list(PRE)) for i in range(depth)]
        f = ctx.choose("objective", ["sphere", "steps", "constant"])
        stop = ctx.choose("target", [None, -2.0, 60.0])
        seed = ctx.choose("seed", [0, 9])
        args = ctx.choose("args", [(), ("a",)])
        kw = dict(stopping_error=stop) if stop is not None else {}
        if args:
            kw["args"] = args
        box = ea.BOXES["branin"]
        fresh = call(ea.ALGOS[algo](4, 3), box, f, seed, **kw)
        opt = ea.ALGOS[algo](4, 3)
        kept = []
        for p in pre:
            if PRE[p] is None:
                continue
            k = dict(PRE[p])
            b, g = k.pop("box"), k.pop("f")
            ctx.op(p)
            try:
                _, r = call(opt, b, g, 5, **k)
            except ZeroDivisionError:
                continue
            kept.append((r, pickle.dumps([{i: np.array(v) for i, v in r[0].items()}, np.array(r[1]), np.array(r[2])])))
        again = call(opt, box, f, seed, **kw)
        ctx.op("final run")
        same_run(ctx, again, fresh, "%s after %s" % (algo, pre))
        for r, s in kept:
            ctx.require(pickle.dumps([{i: np.array(v) for i, v in r[0].items()}, np.array(r[1]), np.array(r[2])]) == s,
                        "results returned earlier changed in a later run")
        # two objects interleaved with the same generator state
        ctx.state((algo, tuple(pre), f, stop, seed, again[1][2]))
    return fn


def reporting(ctx):
    """printing and saving change nothing else"""
    algo = ctx.choose("algorithm", list(ea.ALGOS))
    f = ctx.choose("objective", list(ea.FUNCS))
    stop = ctx.choose("target", [None, -2.0, 1e9])
    kw = {} if stop is None else dict(stopping_error=stop)
    if os.path.exists("step_results.pickle"):
        os.remove("step_results.pickle")
    before = set(os.listdir("."))
    plain = call(ea.ALGOS[algo](4, 4), ea.BOXES["branin"], f, 3, **kw)
    ctx.op("plain")
    ctx.require(set(os.listdir(".")) == before, "a file was written without being asked for")
    for p, s in ((True, False), (False, True), (True, True)):
        r = call(ea.ALGOS[algo](4, 4), ea.BOXES["branin"], f, 3, print_info=p,
                 save_step_results=s, **kw)
        ctx.op("print %s save %s" % (p, s))
        same_run(ctx, r, plain, "print_info=%s, save_step_results=%s" % (p, s))
        if s:
            ctx.require(os.path.exists("step_results.pickle"), "step results were not saved")
            with open("step_results.pickle", "rb") as fh:
                d = pickle.load(fh)
            n = len(plain[0].calls)
            ctx.close(np.asarray(d["best_y_historical"], float)[:n], np.asarray(plain[1][0]["best_y_historical"], float), "saved history", 0, 0)
            ctx.same(np.asarray(d["all_samples"])[:n], plain[1][0]["all_samples"], "saved populations")
            os.remove("step_results.pickle")
    ctx.state((algo, f, stop))


def scenarios(tier):
    big = tier == "thorough"
    return [("stopping", stopping([0.0, -1.0, 1.0, -2.0] if big else [0.0, -1.0, -2.0], 4 if big else 3)),
            ("histories", histories(3 if big else 2)), ("reporting", reporting),
            ("long histories", histories(0, rotated(9) + rotated(5) if big else rotated(6)))]
