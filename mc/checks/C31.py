"""Stop decisions of the three Bayesian optimization loops on scripted values."""
import itertools

import numpy as np

from mc import bo

BOUNDS = ("3 loops (3 surrogates for the multi-fidelity one) x optimum unknown, zero, positive, "
          "negative x every sequence of error levels (5 levels, below the optimum included; "
          "infeasible, low-fidelity) of initial and proposed points x budgets 0-3 x splits over "
          "1-3 calls x tolerance per call (5 values and the default), verbose or not; optima of order 1e-9 to 1e12; values as far as "
          "7 below the optimum; budgets of 9-14 with the tolerance "
          "reached at every iteration or never")
ASSUMPTIONS = ["error and tolerance are never exactly equal", "values of the initial design "
               "are not all equal", "hyper-parameter searches answer with a fixed point"]
OPT = [None, 0, 0.0, 2.0, -3.0]


def value(opt, e):
    return (opt or 0.0) + e * (abs(opt) if opt else 1.0)


def error(opt, best):
    if opt is None or np.isinf(best):
        return np.inf
    return abs(best - opt) / abs(opt) if opt != 0 else abs(best)


def run(loops, inits, levels, budgets, tols, opts, compare=True, plans=None):
    def fn(ctx):
        loop = ctx.choose("loop", loops)
        opt = ctx.choose("optimum", opts)
        e0 = ctx.choose("initial errors", inits)
        bud = ctx.choose("budgets", budgets)
        tol = [ctx.choose("tolerance of call %d" % i, tols) for i in range(len(bud))]
        n0, nmax = len(e0), sum(bud)
        hit = ctx.choose("first point below the tolerance", plans(nmax)) if plans else None
        mixed = plans and loop != "unc" and ctx.choose("other kinds", [False, True])
        # the script: values and kinds of the points in order of evaluation
        if loop == "cons":
            kinds = ctx.choose("initial feasibility", [k for k in itertools.product("fi", repeat=n0) if len(set(k)) > 1 or k == ("i",) * n0])
        else:
            kinds = ("f",) * n0
        plan, best, errs, stops, it = [], np.inf, list(e0), [], 0
        for e, k in zip(e0, kinds):
            if k == "f":
                best = min(best, value(opt, e))
        kinds = list(kinds)
        counts = []
        for b, t in zip(bud, tol):
            t = 1.0 if t is None else t
            n = 0
            while n < b and error(opt, best) > t:
                opts_ = [(e, "f") for e in levels] + ([] if loop == "unc" else [(levels[0], "i")])
                if plans:
                    e, k = (levels[-1], "f") if it == hit else (levels[0] + 0.01 * (it * 3 % 7), "i" if mixed and it % 3 else "f")
                else:
                    e, k = ctx.choose("point %d" % it, opts_)
                errs.append(e)
                kinds.append(k)
                if k == "f":
                    best = min(best, value(opt, e))
                n += 1
                it += 1
            counts.append(n)
        vals = [value(opt, e) for e in errs]

        def build(verbose=False):
            d = 2
            P = bo.proposals(d, nmax + 1, "row")
            if loop == "unc":
                f = bo.Script([[v] for v in vals])
                prob = bo.Problem(d, opt, obj=f)
                acq = bo.Unc(P)
                return bo.UBO(prob, acq, num_init=n0, seed=5, verbose=verbose), acq, [f]
            if loop == "cons":
                f = bo.Script([[v] for v in vals])
                g = bo.Script([[-1.0 - 0.01 * i if k == "f" else 0.5 + 0.01 * i] for i, k in enumerate(kinds)])
                prob = bo.Problem(d, opt, obj=f, cons=g)
                acq = bo.Con(P)
                return bo.CBO(prob, acq, num_init=n0, seed=5, verbose=verbose), acq, [f, g]
            fids = [0 if k == "f" else 1 for k in kinds[n0:]] + [0] * (nmax + 1)
            H = bo.Script([[v] for v, k in zip(vals, kinds) if k == "f"])
            nl = max(3, n0)
            L = bo.Script([[v] for v in (0.7, -0.4, 1.9, 0.2)[:nl]] + [[v] for v, k in zip(vals, kinds) if k == "i"])
            prob = bo.Problem(d, opt, hf=H, lf=L)
            acq = bo.Mul(P, fids)
            return bo.MFBO(prob, acq, num_init=[n0, nl], surrogate_name=loop, seed=5, verbose=verbose), acq, [H, L]

        def go(o, b, t):
            kw = dict(max_iter=b)
            if t is not None:
                kw["stopping_error"] = t
            o.run_optimizer(**kw)
            ctx.op("run %d" % b)
        with bo.quick():
            o, acq, F = build(e0[0] > 1)
            ctx.op("build")
            before = [len(f.x) for f in F]
            done = 0
            for i, (b, t) in enumerate(zip(bud, tol)):
                go(o, b, t)
                done += counts[i]
                ctx.require(acq.n == done, lambda: "call %d: %d iterations in total, expected %d (best %r, optimum %r, tolerance %r)"
                            % (i, acq.n, done, o.best, opt, t))
                extra = [len(f.x) - n for f, n in zip(F, before)]
                got = sum(extra) if loop not in ("unc", "cons") else extra[0]
                ctx.require(got == done and (loop != "cons" or extra[1] == done),
                            lambda: "call %d: %s evaluations in %d iterations" % (i, extra, done))
                ctx.require(len(o.history_best) == done + 1, lambda: "call %d: history has %d entries after %d iterations" % (i, len(o.history_best), done))
            ctx.require(float(o.best) == best, lambda: "best %r, expected %r" % (o.best, best))
            if compare and len(bud) > 1 and len(set(tol)) == 1:
                # the same iterations in one call
                q, acq2, F2 = build()
                go(q, nmax, tol[0])
                ctx.require(acq2.n == done, lambda: "%d iterations in one call, %d in several" % (acq2.n, done))
                a, b_ = state(o, loop), state(q, loop)
                for name in a:
                    ctx.same(a[name], b_[name], "%s after several calls and after one" % name)
        ctx.state((loop, opt, e0, tuple(bud), tuple(tol), tuple(errs), tuple(kinds)))
        ctx.outcome((loop, tuple(counts), tuple(bud)))
    return fn


def state(o, loop):
    X = bo.mod.points(2, 4, bo.mod.BOX["wide"](2), 200)
    out = dict(best=float(o.best), history=np.array([float(h) for h in o.history_best]))
    out["best point"] = np.ravel(o.best_x) if o.best_x is not None else np.zeros(0)
    if loop == "unc":
        out.update(samples=o.sample, responses=o.response, prediction=o.surrogate.predict(X))
    elif loop == "cons":
        out.update(samples=o.sample, responses=o.obj_response, constraints=o.cons_response,
                   prediction=o.obj_surrogate.predict(X))
        out["constraint prediction"] = o.cons_surrogates[0].predict(X)
    else:
        out.update(samples=np.vstack(o.sample), responses=np.vstack(o.response),
                   prediction=o.surrogate.predict(X), order=np.array(o.fidelity_query_order))
    return out


MFK = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]
INIT = [(1.5, 1.8), (0.6, 1.8), (0.05, 1.5), (-0.3, 1.5)]
LEV = [1.6, 0.6, 0.3, 0.05, -0.3]
TOL = [0.1, 0.5, None]      # None: the default of 1.0


def scenarios(tier):
    big = tier == "thorough"
    large = [("long runs", run(["unc", "cons"] + (MFK if big else MFK[:1]), [(1.5, 1.8, 2.5, 1.7)],
                               [1.6, 0.05], [[14], [6, 5], [3, 3, 3]] if big else [[11], [3, 4]],
                               [0.1], [2.0, -3.0, 0, None] if big else [2.0], plans=lambda n: list(range(n)) + [None]))]
    large.append(("small and large optimum", run(["unc", "cons"] + (MFK if big else MFK[:1]), INIT[:2], LEV[1:4] if big else LEV[1:3], [[2]] if big else [[2]], TOL[:1],
                                                [1e-5, -1e-9, 3e12, -4e7])))
    if tier == "thorough":
        B = [[0], [1], [3], [1, 2], [0, 2], [2, 1]]
        return [("loops", run(["unc", "cons"], INIT, LEV[1:], B[:5], TOL, [None, 0, 2.0, -3.0])),
                ("fidelities", run(MFK, INIT, LEV[1:], B[:1] + B[2:5], TOL[:2], OPT[:2] + OPT[3:])),
                ("loose", run(["unc", "cons"] + MFK, [(4.4, 4.7), (2.2, 4.7)], [3.4, 1.9, 0.3], [[2], [1, 1], [3]], [3.0, 1.3, None], [None, 0, 2.0, -3.0])),
                ("far below", run(["unc", "cons"] + MFK, [(3.7, 4.4), (4.2, -2.3)], [2.8, 0.6, -2.6, -6.0], [[2], [1, 1]], [0.5, 4.0], [0, 0.0, 1.5])),
                ("long", run(["unc", "cons", MFK[0]], INIT[:1], LEV[1:], [[4]], TOL[:2], OPT[3:]))] + large
    return [("single fidelity", run(["unc", "cons"], INIT, LEV[1:4], [[0], [2]], TOL, OPT)),
            ("calls", run(["unc", "cons"], INIT[:2], LEV[2:], [[1, 1]], TOL[1:], [None, 0, -3.0])),
            ("fidelities", run(MFK[:1], INIT, LEV[1:4], [[0], [2], [1, 1]], TOL[1:], [None, 0, 2.0, -3.0])),
            ("surrogates", run(MFK[1:], INIT[:2], LEV[1:4], [[2]], TOL[:2], OPT[2:])),
            ("far below", run(["unc", "cons", MFK[0]], [(3.7, 4.4), (4.2, -2.3)], [2.8, 0.6, -2.6, -6.0], [[2]], [0.5, 4.0], [0, 0.0, 1.5])),
            ("loose", run(["unc", "cons", MFK[0]], [(4.4, 4.7), (2.2, 4.7)], [3.4, 1.9, 0.3], [[2], [1, 1]], [3.0, 1.3], [0, 2.0, -3.0])),
            ("longer", run(["unc", "cons", MFK[0]], INIT[:1], LEV[2:], [[3]], [0.1], OPT[3:]))] + large
