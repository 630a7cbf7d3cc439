"""Multi-fidelity Bayesian optimization with scripted fidelities, values and proposals."""
import itertools

import numpy as np

from mc import bo

BOUNDS = ("3 surrogate kinds x 1-2 variables x initial designs of 2-3 high and 3-4 low-fidelity "
          "points x all high-fidelity values from an ordered alphabet (ties included) x every "
          "sequence of up to 3 fidelity choices x every value of the evaluated points "
          "(3 values) x cuts of the iterations into calls x forms of the proposal x cost ratios; "
          "runs of 8-12 iterations in up to 9 (11 in thorough) variables x 7 orders of fidelities x the "
          "improvement at every place; values of order 1e9, 1e-9, 1e-14 and 1 next to 1e6; runs of 40 "
          "iterations; 3 iterations after a design of 60 + 220 points; proposals at corners and on faces of the domain; "
          "a proposed point that repeats the one before, in the same or in the other fidelity")
ASSUMPTIONS = ["values of the initial design are not all equal (the surrogate cannot "
               "standardise them)", "hyper-parameter searches answer with a fixed point "
               "of their bounds"]
KINDS = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]
LOW = [0.7, -0.4, 1.9, 0.2, -1.3, 0.9, 1.1, -0.8]


def tol(Y, d):
    # many close samples: the jitter of the correlations smooths a little (in one variable: not only a little)
    n = len(Y[0]) + len(Y[1])
    r = 1e-5 if n < 16 else np.inf if d == 1 else 5e-2 if n >= 100 else 1e-3
    return max(r * (float(np.std(y)) + 1e-12) + 1e-12 * float(np.max(np.abs(y))) for y in Y)


def run(kinds, inits, iters, alphabet, lows, cuts, shapes, starts=None, orders=None, unit=1.0, long=bo.long):
    def fn(ctx):
        kind = ctx.choose("surrogate", kinds)
        nh, nl = ctx.choose("initial points", inits)
        v0 = ctx.choose("initial high-fidelity values", starts(nh) if starts else [v for v in itertools.product(alphabet, repeat=nh) if len(set(v)) > 1])
        n1 = ctx.choose("iterations", iters)
        fids = ctx.choose("fidelities", orders(n1) if orders else list(itertools.product((0, 1), repeat=n1)))
        cut = ctx.choose("calls", cuts(n1))
        d, form, cost, verbose = ctx.choose("variables, proposal, cost ratio, verbose", shapes)
        vals = ctx.choose("values", long(n1)) if orders else [ctx.choose("value %d" % i, alphabet if f == 0 else lows) for i, f in enumerate(fids)]
        hv = list(v0) + [v for v, f in zip(vals, fids) if f == 0]
        first = [unit * (LOW[i % 8] + 0.05 * (i // 8)) for i in range(nl)]
        lv = first + [v for v, f in zip(vals, fids) if f == 1]
        H, L = bo.Script([[v] for v in hv]), bo.Script([[v] for v in lv])
        prob = bo.Problem(d, None, hf=H, lf=L)
        dom = prob.input_domain.copy()
        P = bo.proposals(d, n1, form)
        num = [nh, nl]

        def verify(o, what, sur=None):
            i = len(H.x) + len(L.x) - nh - nl           # iterations so far
            done = list(fids[:i])
            ctx.require(len(H.x) == nh + done.count(0), lambda: "%s: %d high-fidelity evaluations, expected %d" % (what, len(H.x), nh + done.count(0)))
            X, Y = [np.array(H.x), np.array(L.x)], [np.array(H.y).reshape(-1, 1), np.array(L.y).reshape(-1, 1)]
            ctx.require(len(o.sample) == 2 and len(o.response) == 2, "%s: records" % what)
            for k, n in enumerate(("high", "low")):
                ctx.same(o.sample[k], X[k], "%s: %s-fidelity samples" % (what, n))
                ctx.same(o.response[k], Y[k], "%s: %s-fidelity responses" % (what, n))
            ctx.require([int(q) for q in o.fidelity_query_order] == done,
                        lambda: "%s: order of fidelities %s, expected %s" % (what, o.fidelity_query_order, done))
            best = float(Y[0].min())
            ctx.require(float(o.best) == best, lambda: "%s: best %r, expected %r" % (what, o.best, best))
            bo.rows(ctx, np.ravel(o.best_x)[None], X[0], Y[0], best, what)
            ctx.require(len(o.history_best) == i + 1 and len(o.history_best_x) == i + 1,
                        lambda: "%s: histories have %d and %d entries after %d iterations" % (what, len(o.history_best), len(o.history_best_x), i))
            for j in range(i + 1):
                n = nh + done[:j].count(0)
                w = float(Y[0][:n].min())
                ctx.require(float(o.history_best[j]) == w, lambda: "%s: history %s, expected %g at %d" % (what, o.history_best, w, j))
                bo.rows(ctx, np.ravel(o.history_best_x[j])[None], X[0][:n], Y[0][:n], w, "%s, entry %d" % (what, j))
            m = sur or o.surrogate
            ctx.same(np.asarray(m._get_sample_hf, float), X[0], what + ": high-fidelity samples of the surrogate")
            ctx.same(np.asarray(m._get_sample_lf, float), X[1], what + ": low-fidelity samples of the surrogate")
            if bo.distinct(X[0]) and bo.distinct(X[1]):
                ctx.close(m.predict(X[0].copy()), Y[0], what + ": high-fidelity prediction at the samples", 0, tol(Y, d))
                ctx.close(m.predict_lf(X[1].copy()), Y[1], what + ": low-fidelity prediction at the samples", 0, tol(Y, d))
        held = {}

        def hook(s, ratio, fmin):
            ctx.require(float(ratio) == held["cost"], lambda: "cost ratio %r given to the acquisition, expected %r" % (ratio, held["cost"]))
            ctx.require(float(fmin) == float(np.min(H.y)), lambda: "incumbent %r given to the acquisition, expected %r" % (fmin, np.min(H.y)))
            verify(held["o"], "query %d" % acq.n, s)
        acq = bo.Mul(P, fids, hook)
        with bo.quick():
            o = held["o"] = bo.MFBO(prob, acq, num_init=num, surrogate_name=kind, seed=23, verbose=verbose)
            ctx.op("build")
            ctx.require((len(H.x), len(L.x)) == (nh, nl), lambda: "%d + %d initial evaluations" % (len(H.x), len(L.x)))
            verify(o, "after initialization")
            n = 0
            for i, c in enumerate(cut):
                held["cost"] = cost + 1.5 * i
                o.run_optimizer(max_iter=c, cost_ratio=held["cost"], stopping_error=1e-9)
                ctx.op("run %d" % c)
                n += c
                ctx.require(acq.n == n, lambda: "%d queries after %d iterations" % (acq.n, n))
                verify(o, "after the run")
        ih = il = 0
        for i, f in enumerate(fids):
            S, base, k = (H, nh, ih) if f == 0 else (L, nl, il)
            ctx.same(np.array(S.x[base + k]), np.ravel(P[i]), "point evaluated in iteration %d" % i)
            ih, il = ih + (f == 0), il + (f == 1)
        ctx.same(prob.input_domain, dom, "the domain of the problem changed")
        ctx.require(num == [nh, nl], "the caller's list of sizes changed: %s" % num)
        for k, (S, n) in enumerate(((H, nh), (L, nl))):
            ctx.same(np.asarray(o.init_sample[k], float), np.array(S.x[:n]), "initial samples %d" % k)
            ctx.same(np.asarray(o.init_response[k], float).ravel(), np.array(S.y[:n]).ravel(), "initial responses %d" % k)
        ctx.state((kind, nh, nl, v0, fids, tuple(cut), d, form, cost, verbose, tuple(vals)))
        ctx.outcome((float(o.best), tuple(float(h) for h in o.history_best), fids))
    return fn


SCALES = [([-1e9, 2.5e9, -1.6e9], 1e9), ([-1e-9, 2.5e-9, -1.6e-9], 1e-9), ([1e6, 1e6 + 2.5, 1e6 - 1.25], 1e6), ([-1e-14, 2.5e-14, -1.6e-14], 1e-14)]
V3 = [-1.0, 0.0, 2.5]
SH = [(1, "row", 1.0, False), (2, "vector", 5.0, True), (2, "row", 0.25, False)]


def starts(n):
    return [tuple(0.2 + 0.3 * ((3 * i) % 5) for i in range(n))]


def orders(n):
    """fidelities: all high, all low, alternating, blocks, one of the other kind"""
    one = lambda k, f: tuple(1 - f if i == k else f for i in range(n))
    return [(0,) * n, (1,) * n, tuple(i % 2 for i in range(n)), tuple(int(i >= n // 2) for i in range(n)),
            tuple(int(i < n // 2) for i in range(n)), one(n - 1, 1), one(0, 0)]


def scenarios(tier):
    big = tier == "thorough"
    large = [("long runs", run(KINDS, [(5, 8), (7, 8)] if big else [(5, 8)], [8, 12] if big else [9], None, None,
                               lambda n: [[n], [3, n - 3]] if big else [[3, n - 3]],
                               [(1, "row", 1.0, False), (4, "vector", 3.0, False), (11, "row", 3.0, False)] if big else [(9, "vector", 3.0, False)],
                               starts, orders))]
    large += [("values of order %g" % max(map(abs, v)), run(KINDS, [(2, 3)], [2] if big else [1], v, [2.0 * v[0]], lambda n: [[n]], SH[1:2], unit=u))
              for v, u in SCALES]
    few = lambda n: bo.long(n)[:n:n // 3]
    large.append(("forty iterations", run(KINDS if big else KINDS[:1], [(3, 5)], [40], None, None, lambda n: [[25, n - 25]], [(2, "row", 2.0, False)],
                                          starts, lambda n: orders(n)[2:4] + [tuple(int(i % 3 == 0) for i in range(n))], long=few)))
    large.append(("large design", run(KINDS, [(60, 220)], [3], None, None, lambda n: [[n]], [(2, "row", 2.0, False)],
                                      lambda n: [v[:k] + (-2.5,) + v[k + 1:] for v in starts(n) for k in ((0, n - 1) if big else (0,))], lambda n: [(0, 1, 0), (1, 0, 0)], long=few)))
    large.append(("on the bounds", run(KINDS if big else KINDS[1:2], [(3, 5)], [3], None, None, lambda n: [[n]], [(2, "bounds", 2.0, False)],
                                      starts, orders)))
    large.append(("returning points", run(KINDS if big else KINDS[:1] + KINDS[2:], [(4, 6)], [8], None, None, lambda n: [[3, n - 3]], [(2, "returning", 2.0, False)],
                                          starts, orders, long=few)))
    large.append(("repeated points", run(KINDS, [(2, 3)], [2, 3] if big else [2], V3 if big else V3[::2], [-3.0], lambda n: [[n]], [(2, "repeated", 2.0, False)])))
    if tier == "thorough":
        return [("loop", run(KINDS, [(2, 3), (3, 4)], [0, 1, 2], V3, [-3.0, 4.0], lambda n: [[n]], SH)),
                ("long", run(KINDS, [(2, 3)], [3], V3, [-3.0], lambda n: [[n]], SH)),
                ("longer", run(KINDS, [(2, 3)], [4], [-1.0, 2.5], [-3.0], lambda n: [[n], [1, n - 1]], SH[:2])),
                ("calls", run(KINDS, [(2, 3)], [2], V3, [-3.0, 4.0], bo.splits, SH[1:]))] + large
    return [("loop", run(KINDS, [(2, 3)], [0, 1, 2], V3, [-3.0], lambda n: [[n]], SH)),
            ("larger", run(KINDS, [(3, 4)], [1], V3, [-3.0], lambda n: [[n]], SH[1:2])),
            ("long", run(KINDS, [(2, 3)], [3], [-1.0, 2.5], [-3.0], lambda n: [[n]], SH[1:])),
            ("calls", run(KINDS, [(2, 3)], [2], [-1.0, 2.5], [-3.0], lambda n: [[0, n], [1, n - 1]], SH[:2]))] + large
