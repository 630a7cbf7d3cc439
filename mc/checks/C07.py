"""Declared optima, minimisers and domains against dense grids of the domain."""
import itertools

import numpy as np

from mc import probs

T = probs.table()
BOUNDS = ("every problem configuration; best value searched on full-factorial "
          "grids of the whole domain (1-D 20001, 2-D 201^2, 3-D 25^3, 5-D 7^5, "
          "6-D 5^6 points; finer in thorough) and on 9-level (3 in 6-D) grids "
          "of shrinking boxes around each declared minimiser; the variable-dimension problems in 4-50 variables")
ASSUMPTIONS = ["'beyond rounding' is the tolerance per problem listed in "
               "mc/probs.py (a few units of the last published digit; 0.06 for "
               "Branin_2, whose minimiser is published with 3 digits)"]
LEV = {1: 20001, 2: 201, 3: 25, 5: 7, 6: 5}
BIG = {1: 200001, 2: 1001, 3: 61, 5: 13, 6: 9}
CON_TOL = 0.02      # constraint value left by rounding the minimiser


def objective(obj):
    row_f = getattr(obj, "hf", None)
    try:
        row_f(np.zeros((1, len(obj.input_domain))))
        return row_f
    except NotImplementedError:
        return obj.f


def minimisers(obj):
    s = obj.optimum_scheme
    if len(s) and not np.iterable(s[0]):
        s = [s]
    return [np.array(m, float).ravel() for m in s]


def metadata(ctx):
    name = ctx.choose("problem", list(T))
    row = T[name]
    obj = probs.make(row)
    d = len(row["box"])
    box = np.array(obj.input_domain, float)
    ctx.op("construct " + name)
    ctx.require(obj.num_dim == d, "%s has num_dim %s" % (name, obj.num_dim))
    ctx.require(box.shape == (d, 2), "%s has a domain of shape %s" % (name, box.shape))
    ctx.require(np.all(box[:, 0] < box[:, 1]), "%s has an empty domain" % name)
    ctx.close(box, row["box"], "%s: domain" % name, 1e-12, 1e-12)
    ds = getattr(obj, "design_space", None)
    if ds is not None:
        vals = list(ds.values()) if isinstance(ds, dict) else ds
        ctx.close(np.array(vals, float), box, "%s: named design space and domain" % name, 1e-12, 1e-12)
    ctx.require(obj._get_dimension == obj.num_dim, "%s: dimension accessor" % name)
    ctx.same(obj._input_domain, obj.input_domain, "%s: domain accessor" % name)
    ctx.require((obj._optimum is None) == (row["optimum"] is None),
                "%s: optimum accessor gives %r" % (name, obj._optimum))
    ctx.require((obj.num_cons or 0) == (1 if "f_cons" in row["fns"] else 0),
                "%s: num_cons is %r" % (name, obj.num_cons))
    ctx.state((name, box))
    if row["optimum"] is None:
        ctx.require(obj.optimum is None and obj.optimum_scheme is None, "%s has half an optimum" % name)
        return
    val, tol = row["optimum"]
    ctx.require(np.ndim(obj.optimum) == 0 and abs(float(obj.optimum) - val) <= tol,
                lambda: "%s: declared optimum %r, published %r" % (name, obj.optimum, val))
    ctx.require(float(obj._optimum) == float(obj.optimum), "%s: optimum accessor" % name)
    f = objective(obj)
    ms = minimisers(obj)
    acc = obj._optimum_variable
    ctx.same(np.array(acc, float), np.array(obj.optimum_scheme, float), "%s: minimiser accessor" % name)
    ctx.require(len(ms) > 0, "%s has no minimiser" % name)
    for m in ms:
        ctx.require(m.shape == (d,), "%s: minimiser %s has %d values" % (name, m.tolist(), m.size))
        ctx.require(np.all(m >= box[:, 0]) and np.all(m <= box[:, 1]), "%s: minimiser %s outside the domain" % (name, m.tolist()))
        v = float(np.ravel(f(m.reshape(1, -1)))[0])
        ctx.op("evaluate minimiser")
        ctx.require(abs(v - float(obj.optimum)) <= tol,
                    "%s: minimiser %s has value %r, declared optimum %r" % (name, m.tolist(), v, obj.optimum))
        if "f_cons" in row["fns"]:
            g = float(np.max(obj.f_cons(m.reshape(1, -1))))
            ctx.require(g <= CON_TOL, "%s: minimiser violates a constraint by %g" % (name, g))
    for i in range(len(ms)):
        for j in range(i):
            ctx.require(np.max(np.abs(ms[i] - ms[j])) > 1e-3, "%s lists a minimiser twice" % name)


WIDE = probs.wide()


def many_variables(ctx):
    """declared optimum, minimiser and domain in up to 50 variables"""
    name = ctx.choose("problem", list(WIDE))
    row = WIDE[name]
    obj = probs.make(row)
    d = len(row["box"])
    ctx.op("construct " + name)
    ctx.require(obj.num_dim == d and obj._get_dimension == d, "%s has num_dim %s" % (name, obj.num_dim))
    box = np.array(obj.input_domain, float)
    ctx.close(box, row["box"], "%s: domain" % name, 1e-12, 1e-12)
    ctx.require(np.ndim(obj.optimum) == 0 and abs(float(obj.optimum) - row["optimum"][0]) <= 1e-9,
                lambda: "%s: declared optimum %r" % (name, obj.optimum))
    m = np.array(obj.optimum_scheme, float)
    ctx.require(m.shape == (d,) and np.all(m >= box[:, 0]) and np.all(m <= box[:, 1]), "%s: minimiser %s" % (name, m.tolist()))
    ctx.close(obj.f(m.reshape(1, -1)), [[float(obj.optimum)]], "%s: value at the minimiser" % name, 1e-9, 1e-9)
    if row["cls"] == "Ackley":
        U = np.mod(0.5 + np.outer(np.arange(400), np.sqrt(np.arange(2, d + 2))), 1.0)
        X = np.vstack([box[:, 0] + U * (box[:, 1] - box[:, 0])] + [m + 10.0 ** -k * s * np.eye(d) for k in range(6) for s in (1, -1)])
        ctx.require(np.min(obj.f(X)) >= float(obj.optimum) - 1e-9, "%s: a point is better than the declared optimum" % name)
    ctx.state((name,))


def best_of(ctx, obj, row, X, name):
    f = objective(obj)
    y = np.asarray(f(X), float).ravel()
    ctx.op("grid of %d" % len(X))
    if "f_cons" in row["fns"]:
        y = np.where(np.max(np.asarray(obj.f_cons(X), float).reshape(len(X), -1), axis=1) <= 0, y, np.inf)
    i = int(np.argmin(y))
    tol = row["optimum"][1]
    ctx.require(y[i] >= float(obj.optimum) - tol,
                lambda: "%s: %s has value %r, better than the declared optimum %r"
                % (name, X[i].tolist(), float(y[i]), obj.optimum))
    return y[i]


def unbeaten(lev):
    def fn(ctx):
        name = ctx.choose("problem", [n for n, r in T.items() if r["optimum"]])
        row = T[name]
        obj = probs.make(row)
        box = np.array(row["box"])
        d = len(box)
        ls = [np.linspace(lo, hi, lev[d]) for lo, hi in box]
        best = np.inf
        for x0 in ([None] if d == 1 else ls[0]):
            X = ls[0].reshape(-1, 1) if d == 1 else np.array(
                [(x0,) + t for t in itertools.product(*ls[1:])])
            best = min(best, best_of(ctx, obj, row, X, name))
            ctx.state((name, 0.0 if x0 is None else float(x0)))
        k = {1: 201, 2: 21, 3: 7, 5: 3, 6: 3}[d]
        for m in minimisers(obj):
            for w in (0.3, 0.1, 0.03, 0.01, 0.003, 0.001):
                r = w * (box[:, 1] - box[:, 0])
                X = np.array(list(itertools.product(*[
                    np.unique(np.clip(np.append(np.linspace(c - e, c + e, k), c), lo, hi))
                    for c, e, (lo, hi) in zip(m, r, box)])))
                best = min(best, best_of(ctx, obj, row, X, name))
                ctx.state((name, tuple(m), w))
        ctx.outcome((name, best))
        tol = row["optimum"][1]
        ctx.require(best <= float(obj.optimum) + tol, "%s: nothing as good as the declared optimum %r was found (best %r)" % (name, obj.optimum, best))
    return fn


def scenarios(tier):
    return [("metadata", metadata), ("many variables", many_variables), ("unbeaten", unbeaten(BIG if tier == "thorough" else LEV))]
