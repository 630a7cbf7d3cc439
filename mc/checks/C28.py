"""Unconstrained Bayesian optimization with scripted values and proposals."""
import itertools

import numpy as np

from mc import bo, env, mod

BOUNDS = ("1-2 variables x 3 (3, 4 in thorough) initial points x all assignments of 3 "
          "values to initial and up to 3 proposed points x all cuts of the "
          "iterations into 1-2 calls x 2 forms of the proposal x new or repeated points; runs of 9-14 iterations from 5-9 points in up to 6 "
          "variables with the improvement at every place; values of order 1e9, 1e-9 and 1 next to 1e6; 2 "
          "iterations after a design of 260 points; runs of 40 iterations; proposals at corners and "
          "on faces of the domain")
ASSUMPTIONS = ["values of the initial design are not all equal (the surrogate "
               "cannot standardise them)", "hyper-parameter searches answer with a "
               "fixed point of their bounds"]


def run(inits, iters, alphabet, cuts, shapes, starts=None, long=None):
    def fn(ctx):
        n0 = ctx.choose("initial points", inits)
        v0 = ctx.choose("initial values", starts(n0) if starts else [v for v in itertools.product(alphabet, repeat=n0) if len(set(v)) > 1])
        n1 = ctx.choose("iterations", iters)
        cut = ctx.choose("calls", cuts(n1))
        d, form = ctx.choose("variables and proposal", shapes)
        v1 = ctx.choose("values", long(n1)) if long else [ctx.choose("value %d" % i, alphabet) for i in range(n1)]
        f = bo.Script([[v] for v in list(v0) + v1])
        prob = bo.Problem(d, None, obj=f)
        dom = prob.input_domain.copy()
        P = bo.proposals(d, n1, form)
        seed = 11
        X, Y, hist = [], [], []

        def verify(o, what, sur=None):
            x = np.array(f.x)
            y = np.array(f.y).reshape(-1, 1)
            ctx.same(o.sample, x, "%s: samples" % what)
            ctx.same(o.response, y, "%s: responses" % what)
            best = float(y.min())
            ctx.require(float(o.best) == best, lambda: "%s: best %r, expected %r" % (what, o.best, best))
            ctx.require(len(np.ravel(o.best_x)) == d, "%s: best point has another dimension" % what)
            bo.rows(ctx, o.best_x, x, y, best, what)
            k = len(x) - n0
            want = [float(y[:n0 + i].min()) for i in range(k + 1)]
            ctx.require([float(h) for h in o.history_best] == want,
                        lambda: "%s: history %s, expected %s" % (what, o.history_best, want))
            ctx.require(len(o.history_best_x) == k + 1, "%s: history of best points has %d entries" % (what, len(o.history_best_x)))
            for i, h in enumerate(o.history_best_x):
                bo.rows(ctx, h, x[:n0 + i], y[:n0 + i], want[i], what + ", entry %d" % i)
            bo.trained_on(ctx, sur or o.surrogate, x, y, what)
        held = {}
        acq = bo.Unc(P, lambda s: verify(held["o"], "query %d" % acq.n, s))
        with bo.quick():
            o = held["o"] = bo.UBO(prob, acq, num_init=n0, seed=seed, verbose=d == 2)
            ctx.op("build")
            ctx.require(len(f.x) == n0, lambda: "%d initial evaluations" % len(f.x))
            verify(o, "after initialization")
            done = 0
            for c in cut:
                out = o.run_optimizer(max_iter=c, stopping_error=1e-9)
                ctx.op("run %d" % c)
                done += c
                ctx.require(acq.n == done, lambda: "%d queries after %s iterations" % (acq.n, done))
                ctx.require(len(f.x) == n0 + done, lambda: "%d evaluations after %d iterations" % (len(f.x), done))
                verify(o, "after the run")
                ctx.require(float(out[0]) == float(np.min(f.y)), "returned best value %r" % (out[0],))
                bo.rows(ctx, out[1], np.array(f.x), np.array(f.y).reshape(-1, 1), float(out[0]), "returned")
        for i in range(n1):
            ctx.same(np.array(f.x[n0 + i]), np.ravel(P[i]), "point evaluated in iteration %d" % i)
        ctx.same(prob.input_domain, dom, "the domain of the problem changed")
        ctx.same(o.init_sample, np.array(f.x[:n0]), "initial samples")
        ctx.same(np.ravel(o.init_response), list(v0), "initial responses")
        ctx.state((n0, v0, tuple(cut), d, form, tuple(v1)))
        ctx.outcome((float(o.best), tuple(o.history_best)))
    return fn


SCALES = [[-1e9, 3.0, 2.5e9], [-1e-9, 0.0, 2.5e-9], [1e6, 1e6 + 1.0, 1e6 + 2.5], [1e9, 2e9, 3.5e9]]
ALL = [(d, f) for d in (1, 2) for f in ("row", "vector", "repeated")]


def starts(n):
    """initial values of a larger design: the best one at each end and inside"""
    return [tuple(0.0 if i == b else 0.4 + 0.3 * ((3 * i) % 5) for i in range(n)) for b in (0, n // 2, n - 1)]


def scenarios(tier):
    big = tier == "thorough"
    large = [("long runs", run([5, 9] if big else [6], [9, 14] if big else [12], None,
                               lambda n: [[n], [n - 3, 3], [4] * (n // 4) + [n % 4]] if big else [[n], [5, n - 5]],
                               [(1, "row"), (4, "vector"), (11, "row")] if big else [(9, "vector")], starts, bo.long))]
    large += [("values of order %g" % max(map(abs, v)), run([3], [2, 3] if big else [2], v, lambda n: [[n]], ALL if big else [(2, "row")]))
              for v in SCALES]
    large.append(("large design", run([260, 520] if big else [260], [2], None, lambda n: [[n]], [(2, "row")], starts, bo.long)))
    large.append(("on the bounds", run([3], [2, 4] if big else [4], None, lambda n: [[n]], [(2, "bounds"), (3, "bounds")], starts, bo.long)))
    large.append(("returning points", run([4], [9], None, lambda n: [[n], [4, n - 4]], [(1, "returning"), (2, "returning")], starts, bo.long)))
    large.append(("forty iterations", run([4], [40], None, lambda n: [[40], [25, 15]], [(2, "row")], lambda n: starts(n)[:1], lambda n: bo.long(n)[:n:n // 3])))
    if tier == "thorough":
        return [("loop", run([3], [0, 1, 2, 3], [-1.0, 0.0, 2.5], bo.splits, ALL)),
                ("larger", run([4], [2, 3], [-1.0, 0.0, 2.5], lambda n: [[n]], ALL[::3] + ALL[5:]))] + large
    few = [(1, "row"), (2, "vector"), (2, "repeated")]
    return [("loop", run([3], [0, 2], [-1.0, 0.0, 2.5], bo.splits, ALL)),
            ("longer", run([3], [3], [-1.0, 0.0, 2.5], lambda n: [[1, 2]], few))] + large
