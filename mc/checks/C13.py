"""Gaussian process predictions against closed-form universal kriging."""
import itertools

import numpy as np

from mc import env, mod, ref

BOUNDS = ("1-3 variables x 3-14 samples (and 4-8 variables x 11-117 samples) x 4 boxes (and boxes of width 2e-10 to 2e12) x 4 response families x 3 trends "
          "x noise 0, small, large (in units of the data) or estimated x 3-4 "
          "anisotropic hyper-parameter vectors, answered by a scripted optimiser; "
          "11 prediction points each: samples, interior, corners, outside")
ASSUMPTIONS = ["hyper-parameters keep the condition number of the covariance "
               "below 1e8; agreement up to rounding times that number"]
THETA = {1: [[1.0], [1.7], [2.5]], 2: [[0.5, 0.5], [1.5, 0.8], [0.7, 2.0]],
         3: [[0.5, 0.4, 0.6], [1.2, 0.3, 0.9], [0.2, 1.5, 1.0]]}
for _d in range(4, 13):
    THETA[_d] = [[0.3 + 0.11 * (i % 4) for i in range(_d)],
                 [0.9 - 0.13 * i for i in range(_d)]]
MIN = {"ordinary": lambda d: 3, "linear": lambda d: d + 2,
       "quadratic": lambda d: (d + 1) * (d + 2) // 2 + 2}


def posterior(sizes, boxes, dims=(1, 2, 3), fams=("wave", "big", "small", "kink")):
    def fn(ctx):
        d = ctx.choose("variables", list(dims))
        kind = ctx.choose("trend", list(mod.TREND))
        extra = ctx.choose("samples beyond the least", sizes)
        box = np.array(mod.BOX[ctx.choose("box", boxes)](d))
        fam = ctx.choose("response", list(fams))
        th = ctx.choose("log theta", THETA[d])
        level = ctx.choose("noise", [0.0, 0.01, 1.3, None])
        n = MIN[kind](d) + extra
        X = mod.points(d, n, box)
        y = mod.response(fam, X, box)
        sd = float(np.std(y))
        if level is None:
            prior, noise, ans = None, 0.07 * sd, th + [0.07]
        else:
            prior = noise = level * sd
            ans = th
        m = mod.GP(design_space=box, regr=mod.TREND[kind](),
                   optimizer=mod.Fixed(ans), noise_prior=prior)
        m.train(X.copy(), y.copy() if extra else y.ravel().copy())
        ctx.op("train")
        k = ref.gp(X, y, box, th, kind, noise)
        if k.cond > 1e8 or k.condA > 1e8:
            ctx.outcome("skipped")
            return
        Q = mod.queries(d, box, X)
        mod.against(ctx, m, k, Q, ref.unit(Q, box), noise, "prediction")
        ctx.state((d, kind, n, box, fam, tuple(th), level))
        ctx.outcome("compared")
    return fn


def layout(ctx):
    """query points in every form, one by one, empty trend columns, defaults"""
    d = ctx.choose("variables", [1, 2])
    form = ctx.choose("form", ["one row", "vector", "fortran", "int", "view", "many"])
    prior = ctx.choose("noise", [0.0, 0.3])
    box = np.array(mod.BOX["wide"](d))
    X = mod.points(d, 7, box)
    y = mod.response("wave", X, box)
    th = THETA[d][0]
    kw = {} if prior == 0.0 else dict(noise_prior=prior)
    m = mod.GP(box, optimizer=mod.Fixed(th), **kw)
    m.train(X, y)
    ctx.op("train")
    k = ref.gp(X, y, box, th, "ordinary", prior)
    Q = mod.queries(d, box, X)
    if form == "one row":
        Q = Q[4:5]
    elif form == "vector":
        Q = Q[4]
    elif form == "fortran":
        Q = np.asfortranarray(Q)
    elif form == "int":
        Q = np.round(Q).astype(int)
    elif form == "view":
        Q = np.repeat(Q, 2, axis=0)[::2]
    else:
        Q = mod.points(d, 150, box, 9)
    mean, sd = m.predict(Q, return_std=True)
    ctx.op("predict")
    U = ref.unit(np.atleast_2d(Q), box)
    ctx.close(mean, k.mean(U).reshape(-1, 1), "mean", 1e-7, 1e-7)
    ctx.close(sd ** 2, (np.maximum(k.epi_var(U), 0) + prior ** 2).reshape(-1, 1), "variance", 1e-6, 1e-7)
    ctx.state((d, form, prior))


def scenarios(tier):
    big = tier == "thorough"
    return [("posterior", posterior([0, 1, 2, 4] if big else [0, 2], list(mod.BOX))),
            ("large", posterior([5, 40, 70] if big else [7, 40], ["wide", "neg"],
                                (4, 5, 6, 8, 10) if big else (4, 9), ("wave", "big"))),
            ("slim and vast boxes", posterior([1], list(mod.ODD), (1, 2, 3), ("wave", "kink") if big else ("wave",))),
            ("layout", layout)]
