"""Population moves of PSO and DE, reconstructed from what was evaluated."""
import itertools

import numpy as np

from mc import ea

BOUNDS = ("DE: 2 strategies x 5 step sizes x 3 crossover rates x populations 3-6 "
          "x 5 boxes x 5 objectives x 7 random streams, 4 generations, every trial "
          "matched against every combination of donors; PSO: 7 parameter settings "
          "x populations 2-5 x the same; scripted values (all 2-level tables) for "
          "ties in the selection rules; up to 70 members, 60 generations and 10 variables")
ASSUMPTIONS = ["the donors b and c of one mutant may coincide (the library's "
               "collision rule allows it); PSO components within one maximum "
               "step of a bound may have been redrawn and are then only checked "
               "to be in the box"]


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * scale


def de_step(ctx, X, best, u, F, CR, strategy, box, g):
    n, d = X.shape
    scale = np.maximum(np.max(np.abs(box), axis=1), 1e-300)
    for i in range(n):
        others = np.array([j for j in range(n) if j != i])
        bases = best[None, :] if strategy == "DE/best/1/bin" else X[others]
        is_p = np.abs(u[i] - X[i]) <= 1e-9 * scale
        diff = F * (X[others][:, None, :] - X[others][None, :, :]).reshape(-1, d)
        ok = (CR != 0 or np.sum(~is_p) <= 1)
        if ok:
            ok = False
            for base in bases:
                m = base + diff
                out = (m < box[:, 0]) | (m > box[:, 1])
                edge = (np.abs(m - box[:, 0]) <= 1e-9 * scale) | (np.abs(m - box[:, 1]) <= 1e-9 * scale)
                is_m = (np.abs(u[i] - m) <= 1e-9 * scale) | out | edge
                match = np.all(is_m, axis=1) if CR == 1 else np.all(is_m | is_p, axis=1) & np.any(is_m, axis=1)
                if np.any(match):
                    ok = True
                    break
        ctx.require(ok, lambda: "generation %d, member %d: trial %s is no crossover of parent %s with "
                    "base + %g (x_b - x_c) for any donors of %s" % (g, i, u[i].tolist(), X[i].tolist(), F, X.tolist()))


def de(draws, pops):
    def fn(ctx):
        st = ctx.choose("strategy", ["DE/rand/1/bin", "DE/best/1/bin"])
        F = ctx.choose("step size", [0.5, 0.1, 0.8, 1.5, 0.0])
        CR = ctx.choose("crossover", [0.5, 0.0, 1.0])
        pop = ctx.choose("population", pops)
        bn = ctx.choose("box", ["branin", "neg", "int2", "mixed3", "unit1"])
        f = ctx.choose("objective", list(ea.FUNCS))
        dr = ctx.choose("draws", draws)
        box = np.array(ea.BOXES[bn], float)
        rec = ea.Recorder(ea.FUNCS[f])
        with ea.draws(dr):
            ea.DE(pop, 4, step_size=F, crossover_rate=CR, strategy=st).run_optimizer(
                rec, len(box), np.array(ea.BOXES[bn]))
        ctx.op(st)
        follow_de(ctx, rec, F, CR, st, box)
        ctx.state((st, F, CR, pop, bn, f, rec.calls[-1][0]))
    return fn


def follow_de(ctx, rec, F, CR, st, box, hx=None):
    held = ea.parents(rec.calls)
    ctx.require(ea.inside(rec.calls[0][0], box), "initial population outside the box")
    for g in range(1, len(rec.calls)):
        X, y = held[g - 1]
        # several points may be the best so far: allow each of them
        pts = [c[0][i] for c in rec.calls[:g] for i in np.flatnonzero(c[2] == y.min())]
        u = rec.calls[g][0]
        ctx.require(ea.inside(u, box), "generation %d leaves the box" % g)
        if st == "DE/best/1/bin":
            best = [np.array(t) for t in {tuple(p) for p in pts}]
            if len(best) > 1:
                if hx is None:
                    continue
                best = [hx[g - 1]]
            de_step(ctx, X, best[0], u, F, CR, st, box, g)
        else:
            de_step(ctx, X, None, u, F, CR, st, box, g)


PSO_SET = [dict(), dict(cognition_rate=2.0, social_rate=0.5, weight=0.4, max_velocity_rate=0.1),
           dict(cognition_rate=0.0, social_rate=1.0, weight=1.0, max_velocity_rate=0.05),
           dict(cognition_rate=1.0, social_rate=0.0, weight=0.7, max_velocity_rate=0.05),
           dict(cognition_rate=0.3, social_rate=0.2, weight=0.1, max_velocity_rate=0.3),
           dict(cognition_rate=0.1, social_rate=0.9, weight=0.0, max_velocity_rate=0.02),
           dict(max_velocity_rate=0.0)]
NAMES = dict(cognition_rate=1.5, social_rate=1.5, weight=0.8, max_velocity_rate=0.2)


def follow_pso(ctx, rec, par, box, hx):
    p = dict(NAMES, **par)
    vmax = p["max_velocity_rate"] * (box[:, 1] - box[:, 0])
    scale = np.max(np.abs(box), axis=1)
    tol = 1e-9 * scale
    X = [c[0] for c in rec.calls]
    Y = [c[2] for c in rec.calls]
    pb, pv = X[0].copy(), Y[0].copy()
    V = None            # velocity of the last step, nan where not determined
    hits = 0
    for k in range(1, len(X)):
        safe = (X[k - 1] - vmax > box[:, 0] + tol) & (X[k - 1] + vmax < box[:, 1] - tol)
        step = X[k] - X[k - 1]
        ctx.require(np.all(~safe | (np.abs(step) <= vmax + tol)),
                    lambda: "step %d is longer than the maximum velocity: %s" % (k, step.tolist()))
        if V is not None:
            v = p["weight"] * V + p["cognition_rate"] * (pb - X[k - 1]) \
                + p["social_rate"] * (hx[k - 1] - X[k - 1])
            v = np.clip(v, -vmax, vmax)
            known = ~np.isnan(v)
            x = X[k - 1] + v
            out = (x < box[:, 0]) | (x > box[:, 1])
            edge = (np.abs(x - box[:, 0]) <= tol) | (np.abs(x - box[:, 1]) <= tol)
            bad = known & ~out & ~edge & (np.abs(X[k] - x) > tol)
            hits += int(np.sum(known & ~out & ~edge))
            ctx.require(not np.any(bad), lambda: "step %d: moved to %s, the update rule gives %s" % (k, X[k].tolist(), x.tolist()))
            V = np.where(known, v, np.where(safe, step, np.nan))
        else:
            V = np.where(safe, step, np.nan)
        better = Y[k] <= pv
        pb[better], pv[better] = X[k][better], Y[k][better]
    return hits


def pso(draws, pops, gen):
    def fn(ctx):
        par = ctx.choose("parameters", PSO_SET)
        pop = ctx.choose("population", pops)
        bn = ctx.choose("box", ["branin", "neg", "int2", "mixed3", "unit1"])
        f = ctx.choose("objective", list(ea.FUNCS))
        dr = ctx.choose("draws", draws)
        box = np.array(ea.BOXES[bn], float)
        rec = ea.Recorder(ea.FUNCS[f])
        with ea.draws(dr):
            res, _, _ = ea.PSO(pop, gen, **par).run_optimizer(rec, len(box), np.array(ea.BOXES[bn]))
        ctx.op("pso %s" % par)
        hits = follow_pso(ctx, rec, par, box, np.asarray(res["best_x_historical"]))
        ctx.outcome(hits > 0)
        ctx.state((tuple(par), pop, bn, f, rec.calls[-1][0]))
    return fn


def large(kinds, sizes, draws):
    def fn(ctx):
        kind = ctx.choose("algorithm", kinds)
        bn = ctx.choose("box", list(ea.LARGE))
        pop, gen = ctx.choose("size", sizes)
        f = ctx.choose("objective", ["sphere", "slope", "waves"])
        dr = ctx.choose("draws", draws)
        box = np.array(ea.LARGE[bn], float)
        rec = ea.Recorder(ea.FUNCS[f])
        cross = 0.7 if kind == "pso" else ctx.choose("crossover", [0.0, 0.7])
        with ea.draws(dr):
            if kind == "pso":
                res, _, _ = ea.PSO(pop, gen, **PSO_SET[1]).run_optimizer(rec, len(box), np.array(ea.LARGE[bn]))
                ctx.outcome(follow_pso(ctx, rec, PSO_SET[1], box, np.asarray(res["best_x_historical"])) > 0)
            else:
                ea.DE(pop, gen, step_size=0.4, crossover_rate=cross, strategy=kind).run_optimizer(rec, len(box), np.array(ea.LARGE[bn]))
                follow_de(ctx, rec, 0.4, cross, kind, box)
        ctx.op(kind)
        ctx.state((kind, bn, pop, gen, f, rec.calls[-1][0]))
    return fn


def tables(pop, gen):
    rows = list(itertools.product((0.0, 1.0), repeat=pop))

    def fn(ctx):
        algo = ctx.choose("algorithm", ["pso", "DE/rand/1/bin", "DE/best/1/bin"])
        t = [ctx.choose("values%d" % k, rows) for k in range(gen + 1)]
        box = np.array([[-5.0, 10.0], [0.0, 15.0]])
        rec = ea.Recorder(ea.Table(t + [t[-1]]))
        with ea.draws(5):
            if algo == "pso":
                par = PSO_SET[1]
                res, _, _ = ea.PSO(pop, gen + 1, **par).run_optimizer(rec, 2, box)
                follow_pso(ctx, rec, par, box, np.asarray(res["best_x_historical"]))
            else:
                res, _, _ = ea.DE(pop, gen + 1, strategy=algo).run_optimizer(rec, 2, box)
                follow_de(ctx, rec, 0.5, 0.5, algo, box, np.asarray(res["best_x_historical"]))
        ctx.op(algo)
        ctx.state((algo, tuple(t)))
    return fn


def unknown(ctx):
    """a strategy that does not exist is refused before anything else happens"""
    s = ctx.choose("strategy", ["DE/rand/2/bin", "", "best", None])
    rec = ea.Recorder(ea.sphere)
    ctx.op("unknown strategy")
    ctx.raises(lambda: ea.DE(4, 2, strategy=s).run_optimizer(rec, 1, np.array([[0., 1.]])),
               "strategy %r is accepted" % (s,))
    ctx.state(s)


def scenarios(tier):
    big = tier == "thorough"
    dr = list(range(10)) + ["ends"] if big else [0, 1]
    return [("de", de(dr, [3, 4, 5, 6] if big else [3, 4])),
            ("pso", pso(list(range(20)) + ["ends", "ones"] if big else [0, 1, 2, "ends"], [2, 3, 5], 10 if big else 6)),
            ("tables 3x3", tables(3, 3)),
            ("large", large(["pso", "DE/rand/1/bin", "DE/best/1/bin"], [(9, 12), (14, 5)] + [(11, 40)] * big, [0, 1, 2, 3] if big else [0])),
            ("large populations", large(["DE/rand/1/bin", "DE/best/1/bin"], [(70, 3)], [0, 1] if big else [0])),
            ("large swarms", large(["pso"], [(25, 25), (12, 60), (60, 8)], [0, 1, 2, 3] if big else [0])),
            ("unknown strategy", unknown)] + ([("tables 4x2", tables(4, 2))] if big else [])
