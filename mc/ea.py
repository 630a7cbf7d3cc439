"""Shared driver for the particle-swarm and differential-evolution checks."""
import contextlib

import numpy as np

from mfpml.optimization.evolutionary_algorithms import DE, PSO

ALGOS = {
    "pso": lambda p, g: PSO(num_pop=p, num_gen=g),
    "pso-fast": lambda p, g: PSO(p, g, cognition_rate=2.0, social_rate=0.5,
                                 weight=0.4, max_velocity_rate=0.6),
    "de-rand": lambda p, g: DE(num_pop=p, num_gen=g),
    "de-best": lambda p, g: DE(p, g, step_size=0.9, crossover_rate=0.8,
                               strategy="DE/best/1/bin"),
}
BOXES = dict(
    unit1=[[0.0, 1.0]],
    branin=[[-5.0, 10.0], [0.0, 15.0]],
    neg=[[-7.0, -3.0], [-1e-3, -5e-4]],
    int2=[[-3, 4], [10, 12]],
    mixed3=[[-1.0, 1.0], [100.0, 50000.0], [0.05, 0.15]],
    flat=[[0.0, 1.0], [2.0, 2.0]],
)

LARGE = dict(
    unit6=[[0.0, 1.0]] * 6,
    bore8=[[0.05, 0.15], [100, 50000], [63070, 115600], [990, 1110],
           [63.1, 116], [700, 820], [1120, 1680], [9855, 12045]],
    ten=[[-32.0, 32.0]] * 10,
    wide4=[[-1e6, 1e6], [-1e-6, 1e-6], [0.0, 1.0], [-3.0, -2.0]],
)


def sphere(x):
    return np.sum(np.asarray(x, float) ** 2, axis=1)


def slope(x):
    return -np.sum(np.asarray(x, float), axis=1)


def constant(x):
    return np.zeros(len(x))


def steps(x):
    return np.floor(np.sum(np.asarray(x, float), axis=1))


def waves(x):
    return np.sum(np.cos(9 * np.asarray(x, float)), axis=1) - 3.0


FUNCS = dict(sphere=sphere, slope=slope, constant=constant, steps=steps,
             waves=waves)


@contextlib.contextmanager
def draws(kind):
    """seed the global generator, or replace its uniform draws by an extreme
    stream (values of [0, 1) that a generator may produce)"""
    if isinstance(kind, int):
        np.random.seed(kind)
        yield
        return
    np.random.seed(7)
    cyc = {"zeros": [0.0], "ones": [1 - 2.0 ** -53],
           "ends": [0.0, 1 - 2.0 ** -53, 0.5]}[kind]
    pos = [0]

    def stream(size=None):
        n = 1 if size is None else int(np.prod(size))
        v = np.array([cyc[(pos[0] + i) % len(cyc)] for i in range(n)])
        pos[0] += n
        return float(v[0]) if size is None else v.reshape(size)

    real = np.random.random
    np.random.random = stream
    try:
        yield
    finally:
        np.random.random = real


class Recorder:
    """an objective that remembers everything it was asked"""

    def __init__(self, fn, shape="column"):
        self.fn, self.shape = fn, shape
        self.calls = []

    def __call__(self, x, *args):
        xs = np.array(x, copy=True)
        y = np.asarray(self.fn(xs) if not args else self.fn(xs), float).ravel()
        self.calls.append((xs, args, y.copy()))
        return y.reshape(-1, 1).copy() if self.shape == "column" else y.copy()


class Table:
    """objective with scripted values: row per call"""

    def __init__(self, rows):
        self.rows, self.k = rows, 0

    def __call__(self, x):
        r = self.rows[min(self.k, len(self.rows) - 1)]
        self.k += 1
        return np.array(r, float)


def inside(x, box):
    b = np.array(box, float)
    return bool(np.all(x >= b[:, 0] - 1e-12 * np.abs(b[:, 0]))
                and np.all(x <= b[:, 1] + 1e-12 * np.abs(b[:, 1])))


def parents(calls):
    """the surviving populations of greedy selection"""
    X, y = calls[0][0].copy(), calls[0][2].copy()
    out = [(X.copy(), y.copy())]
    for u, _, v in calls[1:]:
        t = v < y
        X[t], y[t] = u[t], v[t]
        out.append((X.copy(), y.copy()))
    return out


def truthful(ctx, algo, calls, ret, pop, gen, box):
    """the result record against the evaluations that were made"""
    res, best_y, best_x = ret
    n = len(calls)
    vals = [c[2] for c in calls]
    run_min = np.minimum.accumulate([v.min() for v in vals])
    ctx.require(np.shape(best_y) in ((), (1,)) and float(np.ravel(best_y)[0]) == run_min[-1],
                lambda: "%s returns the best value %r, smallest observed %r" % (algo, best_y, run_min[-1]))
    seen = [(c[0][i], c[2][i], k) for k, c in enumerate(calls) for i in range(len(c[0]))]

    def evaluated(x, y, upto):
        x = np.ravel(x)
        return any(k <= upto and v == y and np.array_equal(p, x) for p, v, k in seen)

    ctx.require(np.shape(best_x) == (calls[0][0].shape[1],), lambda: "best point has shape %s" % (np.shape(best_x),))
    ctx.require(evaluated(best_x, run_min[-1], n), lambda: "%s returns %s, which was not evaluated with value %r" % (algo, best_x, run_min[-1]))
    ctx.close(np.ravel(res["best_y"]), [run_min[-1]], "results: best_y", 0, 0)
    ctx.same(np.ravel(res["best_x"]), np.ravel(best_x), "results: best_x")
    hy = np.asarray(res["best_y_historical"], float)
    hx = np.asarray(res["best_x_historical"], float)
    ctx.require(len(hy) == n and len(hx) == n, lambda: "history of %d entries for %d evaluated populations" % (len(hy), n))
    for g in range(n):
        ctx.require(float(np.ravel(hy[g])[0]) == run_min[g],
                    lambda: "%s history entry %d is %r, smallest so far %r" % (algo, g, float(np.ravel(hy[g])[0]), run_min[g]))
        ctx.require(evaluated(hx[g], run_min[g], g), lambda: "history point %d was not evaluated with value %r" % (g, run_min[g]))
    held = parents(calls) if algo.startswith("de") else [(c[0], c[2]) for c in calls]
    S = np.asarray(res["all_samples"], float)
    R = np.asarray(res["all_responses"], float)
    ctx.require(len(S) == n and len(R) == n, lambda: "%d recorded populations for %d evaluated" % (len(S), n))
    for g in range(n):
        ctx.same(S[g], held[g][0], "%s population %d" % (algo, g))
        ctx.same(np.ravel(R[g]), held[g][1], "%s responses %d" % (algo, g))
    ctx.require(res["pop"] == pop and res["gen"] == gen, "results: pop/gen")
    ctx.same(res["design_space"], box, "results: design_space")
