"""Constrained expected improvement against its definition."""
import itertools

import numpy as np

from mc import acq, env, mod, ref

BOUNDS = ("1-3 variables x 1-3 constraints x 3 records of responses x all pairs and "
          "(two constraints) quadruples of objective and constraint predictions, one "
          "batch, every window of 1-5 points and plain vectors; limits 2-6.5 deviations away on both sides, to one part in 100 of a small probability; limits of order 1e-7; every 23rd combination "
          "for 4 and 5 constraints in 2 and 6 variables, with up to 150 responses")
ASSUMPTIONS = ["standard deviations are 0 or at least 1e-3"]
OBJ = [(-2.0, 0.5), (0.0, 0.0), (-1.5, 0.0), (0.4, 2.0), (9.0, 1e-3)]
CON = [(-1.0, 0.5), (1.0, 0.5), (0.0, 1.0), (-0.3, 0.0), (0.3, 0.0), (2.0, 9.0)]
RECORDS = [[0.3], [2.0, -1.0, 0.5], [5.0, 5.0, 6.0]]

_L = [-1.0 + 0.02 * i for i in range(150)]
LONG = [_L, _L[::-1], _L[:3] + [0.5]]


def pof1(m, s):
    return (1.0 if m <= 0 else 0.0) if s == 0 else ref.cdf(-m / s)


def run(con, dims=(1, 2, 3), counts=(1, 2, 3), every=1, records=RECORDS):
    def fn(ctx):
        d = ctx.choose("variables", list(dims))
        k = ctx.choose("constraints", list(counts))
        rec = ctx.choose("responses", records)
        order = ctx.choose("order of the batch", ["given", "mixed"])
        combos = list(itertools.product(OBJ if k < 3 else OBJ[:3], *[con if k < 3 else con[:4]] * k))[::every]
        if order == "mixed":
            step = next(s for s in (7, 11, 13, 17, 1) if len(combos) % s)
            combos = [combos[(i * step) % len(combos)] for i in range(len(combos))]
        bo, bc = acq.Book(), [acq.Book() for _ in range(k)]
        X = []
        for i, cb in enumerate(combos):
            X.append(acq.point(i, d))
            bo.put(X[-1], *cb[0])
            for j in range(k):
                bc[j].put(X[-1], *cb[1 + j])
        X = np.array(X)
        obj = acq.ScriptedGP(d, bo, rec)
        cons = [acq.ScriptedGP(d, b, [0.1 * j - 3.0, 1.0]) for j, b in enumerate(bc)]
        a = acq.SCA.CEI()
        best = min(rec)
        wei = np.array([ref.ei(best, *cb[0]) for cb in combos]).reshape(-1, 1)
        wp = np.array([np.prod([pof1(*c) for c in cb[1:]]) for cb in combos]).reshape(-1, 1)
        keep = X.copy()

        def one(sl, x):
            x = np.array(x)
            ctx.op("eval")
            ctx.close(a.eval(x, obj, cons), -(wei * wp)[sl], "CEI of %s" % (combos[sl][:5],), 1e-5, 3e-6)
        one(slice(0, len(X)), X)
        ctx.close(a.ei(X, obj), wei, "expected improvement", 1e-5, 3e-6)
        p = a.pof(X, cons)
        ctx.close(p, wp, "probability of feasibility", 1e-5, 3e-6)
        ctx.require(np.all(p >= 0) and np.all(p <= 1), "probability of feasibility outside [0, 1]")
        for n in range(1, 6):
            for i in range(len(X) - n + 1):
                one(slice(i, i + n), X[i:i + n])
        for i in range(len(X)):
            one(slice(i, i + 1), X[i])
            ctx.state((d, k, tuple(rec), combos[i]))
        ctx.same(X, keep, "the criterion changed its argument")
    return fn


def tiny(ctx):
    """constraint predictions and standard deviations of order 1e-7"""
    k = ctx.choose("constraints", [1, 2])
    u = ctx.choose("scale", [2e-7, 1e-5])
    d = ctx.choose("variables", [1, 2])
    z = np.arange(-1.5, 1.6, 0.25)
    bo, bc = acq.Book(), [acq.Book() for _ in range(k)]
    X = np.array([acq.point(i, d) for i in range(len(z))])
    for x, v in zip(X, z):
        bo.put(x, -1.0, 0.7)
        for j in range(k):
            bc[j].put(x, v * u if j == k - 1 else -0.4 * u, u)
    obj = acq.ScriptedGP(d, bo, [0.5, 0.8])
    cons = [acq.ScriptedGP(d, b, [0.1, 1.0]) for b in bc]
    w = np.array([[ref.cdf(-v) * ref.cdf(0.4) ** (k - 1)] for v in z])
    a = acq.SCA.CEI()
    ctx.op("eval", 2)
    ctx.close(a.pof(X, cons), w, "probability of feasibility of limits of order %g" % u, 0, 5e-3)
    ctx.close(a.eval(X, obj, cons), -w * ref.ei(0.5, -1.0, 0.7), "CEI with limits of order %g" % u, 0, 1e-2)
    ctx.state((k, u, d))


def tail(ctx):
    """improbable feasibility still ranks the points, near certainty stays below one"""
    k = ctx.choose("constraints", [1, 2, 3])
    s = ctx.choose("std", [0.5, 3.0])
    d = ctx.choose("variables", [1, 2])
    z = np.round(np.concatenate([np.arange(-6.5, -1.9, 0.25), np.arange(2.0, 6.6, 0.25)]), 3)
    bo, bc = acq.Book(), [acq.Book() for _ in range(k)]
    X = np.array([acq.point(i, d) for i in range(len(z))])
    for x, v in zip(X, z):
        bo.put(x, -1.0, 0.7)
        for j in range(k):
            bc[j].put(x, v * s if j == k - 1 else 0.4 * s, s)
    obj = acq.ScriptedGP(d, bo, [0.5, 0.8])
    cons = [acq.ScriptedGP(d, b, [0.1, 1.0]) for b in bc]
    a = acq.SCA.CEI()
    e = ref.ei(0.5, -1.0, 0.7)
    w = np.array([ref.cdf(-v) * ref.cdf(-0.4) ** (k - 1) for v in z])
    ctx.op("eval", 2)
    for i, v in enumerate(z):
        what = "of a point %g deviations above a limit" % v
        ctx.close(float(np.ravel(a.pof(X, cons))[i]), w[i], "probability of feasibility " + what, 1e-2 if v > 0 else 2e-8, 0)
        ctx.close(float(np.ravel(a.eval(X, obj, cons))[i]), -w[i] * e, "CEI " + what, 1e-2 if v > 0 else 2e-8, 0)
    ctx.state((k, s, d))


def trained(ctx):
    """trained surrogates; the probability falls when a constraint rises"""
    d = ctx.choose("variables", [1, 2])
    k = ctx.choose("constraints", [1, 2, 3])
    fam = ctx.choose("response", ["wave", "big", "kink"])
    box = mod.BOX["wide"](d)
    X = mod.points(d, 7, box)
    mk = lambda y: _fit(box, X, y)
    y = mod.response(fam, X, box)
    G = [mod.response(f, X, box) for f in ("wave", "kink", "small")][:k]
    G = [(g - np.mean(g)) / np.std(g) for g in G]
    obj, cons = mk(y), [mk(g) for g in G]
    Q = mod.points(d, 9, box, 30)
    sp = float(np.std(y))
    a = acq.SCA.CEI()
    m, s = (v.ravel() for v in obj.predict(Q, return_std=True))
    w = np.array([ref.ei(float(y.min()), m[i], s[i]) for i in range(len(Q))])
    for c in cons:
        m, s = (v.ravel() for v in c.predict(Q, return_std=True))
        w = w * np.array([pof1(m[i], s[i]) for i in range(len(Q))])
    got = a.eval(Q, obj, cons)
    ctx.op("eval")
    ctx.close(got / sp, -w.reshape(-1, 1) / sp, "CEI of trained surrogates", 1e-4, 1e-5)
    p0 = a.pof(Q, cons)
    for j in range(k):
        up = list(cons)
        up[j] = mk(G[j] + 0.5)
        p1 = a.pof(Q, up)
        ctx.op("pof")
        ctx.require(np.all(p1 <= p0 + 1e-9), "the probability of feasibility rises with constraint %d" % j)
        ctx.require(np.all(p1 >= 0) and np.all(p0 <= 1), "probability outside [0, 1]")
    ctx.state((d, k, fam))


def _fit(box, X, y):
    m = mod.GP(np.array(box, float), optimizer=mod.Fixed([1.0] * X.shape[1]))
    m.train(X, y)
    return m


def scenarios(tier):
    return [("table", run(CON if tier == "thorough" else CON[:5])), ("trained", trained), ("tail", tail), ("tiny", tiny),
            ("large", run(CON, (2, 6), (4, 5), 23, LONG))]
