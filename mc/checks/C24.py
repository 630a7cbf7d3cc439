"""EI, PI and LCB against their defining expressions."""
import numpy as np

from mc import acq, env, mod, ref

BOUNDS = ("1-3 variables x 3 criteria x 4 records of responses x all 35 (77 in thorough) "
          "pairs of mean and standard deviation, as one batch, as every window of 1-5 "
          "points and as plain vectors (also batches of 325 points in up to 8 variables with 150 "
          "responses, and one batch of 4500); 4 bound factors; improvements of 2-6.5 deviations to one part in 100; 6 trained surrogates x 14 points, trained anew under the same criterion")
ASSUMPTIONS = ["standard deviations are 0 or at least 1e-3, so that the 1e-9 that "
               "keeps the ratio finite is below the tolerance"]
RECORDS = [[0.3], [2.0, -1.0, 0.5], [-1.0, -1.0], [7.0, 8.0, 0.0, 9.0, 30.0]]
KAPPA = [None, [1.0, 0.0], [0.5, 3.0], [2.0, -1.0]]


def want(name, best, m, s, kappa):
    if name == "LCB":
        k = [1.0, 1.96] if kappa is None else kappa
        return k[0] * m - k[1] * s
    if name == "EI":
        return -ref.ei(best, m, s)
    if s == 0:
        return -1.0 if m < best else 0.0 if m > best else None
    return -ref.cdf((best - m) / s)


def compare(ctx, name, got, w, n, what):
    got = np.asarray(got, float)
    ctx.require(got.shape == (n, 1), lambda: "%s of %d points has shape %s" % (name, n, got.shape))
    ctx.require(np.all(np.isfinite(got)), lambda: "%s is not finite" % name)
    if name != "LCB":
        ctx.require(np.all(got <= 1e-12), lambda: "%s is positive: %g" % (name, got.max()))
    for i, v in enumerate(w):
        if v is not None:
            ctx.close(got[i, 0], v, "%s of %s" % (name, what(i)), 1e-5, 3e-6)


def table(means, stds, dims=(1, 2, 3), records=RECORDS):
    def fn(ctx):
        name = ctx.choose("criterion", list(acq.SF))
        d = ctx.choose("variables", list(dims))
        rec = ctx.choose("responses", records)
        kappa = ctx.choose("factors", KAPPA) if name == "LCB" else None
        book = acq.Book()
        cases = [(m, s) for m in means for s in stds]
        X = []
        for i, (m, s) in enumerate(cases):
            X.append(acq.point(i, d))
            book.put(X[-1], m, s)
        X = np.array(X)
        sur = acq.ScriptedGP(d, book, rec)
        a = acq.SF[name]() if kappa is None else acq.SF[name](kappa=list(kappa))
        best = min(rec)
        w = [want(name, best, m, s, kappa) for m, s in cases]
        keep = X.copy()
        compare(ctx, name, a.eval(X, surrogate=sur), w, len(X), lambda i: cases[i])
        ctx.op("eval")
        for n in range(1, 6) if len(X) < 200 else (1, 101):
            for i in range(0, len(X) - n + 1, 1 if len(X) < 200 else 13):
                compare(ctx, name, a.eval(X[i:i + n], sur), w[i:i + n], n, lambda j: cases[i + j])
                ctx.op("eval")
        for i in range(len(X)):
            compare(ctx, name, a.eval(X[i], sur), w[i:i + 1], 1, lambda j: cases[i])
            ctx.state((name, d, tuple(rec), str(kappa), cases[i]))
        ctx.same(X, keep, "the criterion changed its argument")
        ctx.same(sur.sample_y.ravel(), rec, "the criterion changed the surrogate")
    return fn


def batch(means, stds):
    def fn(ctx):
        """one batch of many points"""
        name = ctx.choose("criterion", list(acq.SF))
        d = ctx.choose("variables", [1, 3])
        n = ctx.choose("points", [1100, 4500])
        pairs = [(m, s) for m in means for s in stds]
        cases = [pairs[(i * 11) % len(pairs)] for i in range(n)]
        book, X = acq.Book(), np.array([acq.point(i, d) for i in range(n)])
        for x, p in zip(X, cases):
            book.put(x, *p)
        w = [want(name, -1.0, m, s, None) for m, s in cases]
        compare(ctx, name, acq.SF[name]().eval(X, acq.ScriptedGP(d, book, RECORDS[1])), w, n, lambda i: cases[i])
        ctx.op("eval")
        ctx.state((name, d, n))
    return fn


def tail(ctx):
    """improvements that are unlikely still rank the points"""
    name = ctx.choose("criterion", ["EI", "PI"])
    best = ctx.choose("best", [0.0, -3.0, 40.0])
    s = ctx.choose("std", [0.5, 1.0, 20.0])
    d = ctx.choose("variables", [1, 3])
    z = np.round(np.arange(2.0, 6.6, 0.25), 3)
    book, X = acq.Book(), np.array([acq.point(i, d) for i in range(len(z))])
    for x, v in zip(X, z):
        book.put(x, best + v * s, s)
    sur = acq.ScriptedGP(d, book, [best, best + 1.0])
    w = np.array([want(name, best, best + v * s, s, None) for v in z])
    got = np.asarray(acq.SF[name]().eval(X, sur), float).ravel()
    ctx.op("eval")
    for i, v in enumerate(z):
        ctx.close(got[i], w[i], "%s of a point %g deviations above the best" % (name, v), 1e-2, 0)
    ctx.state((name, best, s, d))


def trained(ctx):
    name = ctx.choose("criterion", list(acq.SF))
    d = ctx.choose("variables", [1, 2])
    fam = ctx.choose("response", ["wave", "big", "small"])
    noise = ctx.choose("noise", [0.0, 0.3])
    c = mod.Case("gp", d, nl=6, fam=fam, noise=noise * float(np.std(mod.Case("gp", d, nl=6, fam=fam).yh)))
    m = c.train(c.build())
    Q = np.vstack([c.q(), mod.points(d, 5, c.box, 60)])
    mean, sd = (v.ravel() for v in m.predict(Q, return_std=True))
    best = float(c.yh.min())
    crit = acq.SF[name]()
    got = np.asarray(crit.eval(Q, m), float)
    ctx.op("eval")
    sp = float(np.std(c.yh))
    for i in range(len(Q)):
        if sd[i] < 1e-3 * sp:
            continue
        v = want(name, best, mean[i], sd[i], None)
        unit = 1.0 if name == "PI" else sp
        ctx.close(got[i, 0] / unit, v / unit, "%s of a trained surrogate" % name, 1e-4, 1e-5)
        ctx.state((name, d, fam, noise, i))
    m.train(c.Xh[::-1], -c.yh)              # the criterion follows the surrogate
    mean, sd = (v.ravel() for v in m.predict(Q, return_std=True))
    got = np.asarray(crit.eval(Q[3:4], m), float)
    unit = 1.0 if name == "PI" else sp
    ctx.close(got[0, 0] / unit, want(name, float((-c.yh).min()), mean[3], sd[3], None) / unit,
              "%s after retraining" % name, 1e-4, 1e-5)


def scenarios(tier):
    m, s = [-4.0, -1.0, -0.6, 0.0, 0.3, 1.7, 40.0], [0.0, 1e-3, 0.4, 2.0, 15.0]
    if tier == "thorough":
        m, s = m + [-20.0, 0.299, 0.301, 8.0], s + [0.02, 100.0]
    M = [round(-6.0 + 0.61 * i, 3) for i in range(25)]
    S = [0.0] + [round(0.002 * 2.1 ** i, 4) for i in range(12)]
    long = [3.0 + np.sin(1.7 * i).item() for i in range(150)]
    return [("table", table(m, s)), ("trained", trained), ("tail", tail), ("batch", batch(m, s)),
            ("large", table(M, S, (1, 4, 8), [long, long[:4] + [-2.5] + long[4:], long[:-1] + [0.1]]))]
