"""Constrained Bayesian optimization with scripted values, feasibility and proposals."""
import itertools

import numpy as np

from mc import bo

BOUNDS = ("1-2 variables x 2-3 initial points x objective values from an ordered "
          "alphabet with ties x every feasibility pattern of 1-3 constraints "
          "(violated, satisfied, exactly zero) on initial and up to 2 (3 in thorough) "
          "proposed points x cuts of the iterations into calls; runs of 9-12 iterations "
          "with 1-5 constraints in up to 9 (11 in thorough) variables, improvement at every place x 6 "
          "patterns of feasibility; values of order 1e9, 1e-9 and 1 next to 1e6; 2 iterations after a "
          "design of 260 points; constraint values of order 1e6; proposals at corners and on faces of the domain; a proposed point that repeats the one before")
ASSUMPTIONS = ["values of the initial design differ by more than 1e-100, objective and "
               "constraint (a surrogate cannot standardise them)",
               "hyper-parameter searches answer with a fixed point of their bounds"]


def level(kind, i):
    """a constraint value of the i-th point; never constant over points"""
    return {"+": 0.5 + 0.01 * i, "-": -1.0 - 0.01 * i, "0": 0.0,
            "tiny": [1e-9, 1e-13, 1e-200][i % 3] * (i + 1),
            "--": -1e6 * (1 + 0.3 * (i * 3 % 5)), "++": 1e6 * (1 + 0.3 * (i * 2 % 5))}[kind]


def expected(X, y, c):
    ok = [i for i in range(len(X)) if all(v <= 0 for v in c[i])]
    return min([float(y[i]) for i in ok]) if ok else None, ok


def run(n0s, iters, alphabet, patterns, cuts, shapes, starts=None, long=None):
    """patterns: list of tuples, one kind per constraint"""
    def fn(ctx):
        pats = ctx.choose("constraints", patterns)
        k = len(pats[0])
        n0 = ctx.choose("initial points", n0s)
        v0 = ctx.choose("initial values", starts[0](n0) if starts else [v for v in itertools.product(alphabet, repeat=n0) if len(set(v)) > 1])
        c0 = ctx.choose("initial feasibility", starts[1](n0, k) if starts else [
            c for c in itertools.product(pats, repeat=n0)
            if all(np.ptp([level(p[j], i) for i, p in enumerate(c)]) > 1e-100 for j in range(k))])
        n1 = ctx.choose("iterations", iters)
        cut = ctx.choose("calls", cuts(n1))
        d, form = ctx.choose("variables and proposal", shapes)
        v1, c1 = [], []
        if long:
            v1 = ctx.choose("values", bo.long(n1))
            c1 = ctx.choose("feasibility", long(n1, k))
        for i in range(0 if long else n1):
            v1.append(ctx.choose("value %d" % i, alphabet))
            c1.append(ctx.choose("feasibility %d" % i, pats))
        cv = [[level(p, i) for p in c] for i, c in enumerate(list(c0) + c1)]
        f = bo.Script([[v] for v in list(v0) + v1])
        g = bo.Script(cv, width=k)
        prob = bo.Problem(d, None, obj=f, cons=g)
        dom = prob.input_domain.copy()
        P = bo.proposals(d, n1, form)
        seed = 17

        def best_of(o_best, o_x, x, y, c, what):
            want, ok = expected(x, y, c)
            if want is None:
                ctx.require(np.isposinf(float(o_best)), lambda: "%s: best %r though no point is feasible" % (what, o_best))
                ctx.require(o_x is None, lambda: "%s: best point %r though none is feasible" % (what, o_x))
                return
            ctx.require(float(o_best) == want, lambda: "%s: best %r, expected %r" % (what, o_best, want))
            ctx.require(o_x is not None, "%s: no best point" % what)
            bx = np.asarray(o_x, float)
            ctx.require(bx.size % d == 0 and bx.size >= d, lambda: "%s: best point %s" % (what, bx))
            for r in bx.reshape(-1, d):
                ctx.require(any(np.array_equal(x[i], r) and float(y[i]) == want for i in ok),
                            lambda: "%s: best point %s is no feasible sample with value %g" % (what, r.tolist(), want))

        def verify(o, what, so=None, sc=None):
            x = np.array(f.x)
            y = np.array(f.y).reshape(-1, 1)
            c = np.array(g.y).reshape(-1, k)
            ctx.same(np.array(g.x), x, "%s: points the constraints were evaluated at" % what)
            ctx.same(o.sample, x, "%s: samples" % what)
            ctx.same(o.obj_response, y, "%s: objective record" % what)
            ctx.same(o.cons_response, c, "%s: constraint record" % what)
            best_of(o.best, o.best_x, x, y, c, what)
            m = len(x) - n0
            ctx.require(len(o.history_best) == m + 1 and len(o.history_best_x) == m + 1,
                        lambda: "%s: histories have %d and %d entries" % (what, len(o.history_best), len(o.history_best_x)))
            for i in range(m + 1):
                best_of(o.history_best[i], o.history_best_x[i], x[:n0 + i], y[:n0 + i], c[:n0 + i], "%s, entry %d" % (what, i))
            bo.trained_on(ctx, so or o.obj_surrogate, x, y, what + ", objective")
            sc = sc if sc is not None else o.cons_surrogates
            ctx.require(len(sc) == k, lambda: "%s: %d constraint surrogates" % (what, len(sc)))
            for j in range(k):
                bo.trained_on(ctx, sc[j], x, c[:, j], "%s, constraint %d" % (what, j))
        held = {}
        acq = bo.Con(P, lambda so, sc: verify(held["o"], "query %d" % acq.n, so, sc))
        with bo.quick():
            o = held["o"] = bo.CBO(prob, acq, num_init=n0, seed=seed, verbose=d == 2)
            ctx.op("build")
            ctx.require(len(f.x) == n0, lambda: "%d initial evaluations" % len(f.x))
            verify(o, "after initialization")
            done = 0
            for n in cut:
                out = o.run_optimizer(max_iter=n, stopping_error=1e-9)
                ctx.op("run %d" % n)
                done += n
                ctx.require(acq.n == done, lambda: "%d queries after %s iterations" % (acq.n, done))
                ctx.require(len(f.x) == n0 + done, lambda: "%d evaluations after %d iterations" % (len(f.x), done))
                verify(o, "after the run")
                best_of(out[0], out[1], np.array(f.x), np.array(f.y).ravel(), np.array(g.y).reshape(-1, k), "returned")
        for i in range(n1):
            ctx.same(np.array(f.x[n0 + i]), np.ravel(P[i]), "point evaluated in iteration %d" % i)
        ctx.same(prob.input_domain, dom, "the domain of the problem changed")
        ctx.same(o.init_sample, np.array(f.x[:n0]), "initial samples")
        ctx.same(np.ravel(o.init_obj_response), list(v0), "initial objective values")
        ctx.same(np.asarray(o.init_cons_response, float).reshape(n0, k), cv[:n0], "initial constraint values")
        ctx.state((n0, v0, c0, tuple(cut), d, form, tuple(v1), tuple(c1)))
        ctx.outcome((float(o.best), tuple(float(h) for h in o.history_best)))
    return fn


SCALES = [[-1e9, 2.5e9], [-1e-9, 2.5e-9], [1e6, 1e6 + 2.5], [1e9, 3.5e9]]
ONE = [("+",), ("-",), ("0",)]
ONE_T = ONE + [("tiny",)]
TWO = list(itertools.product("-+", repeat=2))
TWO0 = list(itertools.product("-+0", repeat=2))
HUGE = list(itertools.product(("--", "++"), repeat=2)) + [("-", "++"), ("--", "+")]
THREE = [("-", "-", "-"), ("+", "-", "-"), ("-", "+", "-"), ("-", "-", "+"), ("+", "+", "0")]
FIVE = [("-",) * 5, ("-",) * 4 + ("+",), ("+",) + ("-",) * 4]


def starts(n):
    return [tuple(0.2 + 0.3 * ((3 * i) % 5) for i in range(n))]


def feasible(n, k):
    """feasible only at one place, at one end, or nowhere; violated in turn"""
    def bad(i):
        return tuple("+" if j == i % k else "-" for j in range(k))
    out = [[("-",) * k if i == g else bad(i) for i in range(n)] for g in (0, n - 1)]
    return out + [[bad(i) for i in range(n)]]


def later(n, k):
    """feasible: always, never, every other one, from the middle on, until then,
    all but the last constraint, only the last constraint violated at odd places"""
    good, bad = ("-",) * k, ("-",) * (k - 1) + ("+",)
    first = ("+",) + ("-",) * (k - 1)
    return [[good] * n, [bad] * n, [good if i % 2 else first for i in range(n)],
            [good if i > n // 2 else bad for i in range(n)],
            [bad if i > n // 2 else good for i in range(n)],
            [("0",) * k if i % 3 == 1 else bad for i in range(n)]]


def scenarios(tier):
    big = tier == "thorough"
    pats = [[("-",) * k] for k in ((1, 4, 5) if big else (4,))]
    large = [("long runs, %d constraints" % len(p[0]),
              run([6], [9, 12] if big else [9], None, [p], lambda n: [[n], [4, n - 4]] if big else [[4, n - 4]],
                  [(1, "row"), (4, "vector"), (11, "row")] if big else [(9, "vector")], (starts, feasible), later)) for p in pats]
    large += [("values of order %g" % max(map(abs, v)), run([2], [2] if big else [1], v, [ONE_T], lambda n: [[n]], [(2, "row")]))
              for v in SCALES]
    large.append(("large design", run([260], [2], None, [[("-",) * 2]], lambda n: [[n]], [(2, "row")], (starts, feasible), later)))
    V = [-1.0, 2.0]
    large.append(("huge constraints", run([2], [1, 2] if big else [1], V, [HUGE], lambda n: [[n]], [(2, "row")])))
    large.append(("on the bounds", run([4], [3], None, [[("-",) * 2]], lambda n: [[n]], [(2, "bounds")], (starts, feasible), later)))
    A = [(1, "row"), (2, "vector")]
    large.append(("five", run([2], [1], V, [FIVE], lambda n: [[n]], A[1:])))
    large.append(("returning points", run([6], [8], None, [[("-",) * 2]], lambda n: [[n]], [(2, "returning")], (starts, feasible), later)))
    large.append(("repeated points", run([2], [2, 3] if big else [2], V, [ONE] if big else [ONE[:2]], lambda n: [[n]], [(2, "repeated")])))
    if tier == "thorough":
        return [("one", run([2], [0, 1, 2], [-1.0, 0.0, 2.0], [ONE_T], lambda n: [[n]], A)),
                ("more", run([3], [0, 1], [-1.0, 0.0, 2.0], [ONE_T], lambda n: [[n]], A)),
                ("calls", run([2], [2], V, [ONE], bo.splits, A)),
                ("two", run([2], [0, 1], V, [TWO0], lambda n: [[n]], A)),
                ("two, longer", run([2], [2], V, [TWO], lambda n: [[n]], A)),
                ("three", run([2], [0, 2], V, [THREE], lambda n: [[n]], A)),
                ("long", run([2], [3], V, [ONE], lambda n: [[1, n - 1]], A))] + large
    return [("one", run([2], [0, 2], V, [ONE], lambda n: [[n]], A)),
            ("calls", run([2], [2], V, [ONE], lambda n: [[0, 2], [1, 1]], A[1:])),
            ("two", run([2], [1], V, [TWO0], lambda n: [[n]], A[1:])),
            ("three", run([2], [1], V, [THREE], lambda n: [[n]], A[1:])),
            ("more", run([3], [0, 1], V, [ONE], lambda n: [[n]], A[:1])),
            ("barely", run([2], [0, 1], V, [ONE_T], lambda n: [[n]], A[:1]))] + large
