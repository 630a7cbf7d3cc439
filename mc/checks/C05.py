"""Every formula of every test problem on full-factorial grids."""
import itertools

import numpy as np

from mc import probs

T = probs.table()
BOUNDS = ("all %d problem configurations, every fidelity, objective and "
          "constraint; full-factorial grids including both boundaries (1-D 401 "
          "levels, 2-D 41, 3-D 13, 4-D 8, 5-D 5, 6-D 5, 8-D 3 levels) plus the "
          "same grid moved off the centre; steps of 1e-1 to 1e-8 of the domain around "
          "minimisers, corners and faces; the variable-dimension problems in 4-50 "
          "variables, pairs of coordinates at 6 levels" % len(T))
ASSUMPTIONS = ["the published formulas are the ones in mc/probs.py"]
LEVELS = {1: 401, 2: 41, 3: 13, 4: 8, 5: 5, 6: 5, 8: 3}
BIG = {1: 4001, 2: 201, 3: 41, 4: 16, 5: 9, 6: 7, 8: 5}


def levels(lo, hi, n, kind):
    if kind == "grid":
        return list(np.linspace(lo, hi, n))
    w = (hi - lo) / n           # off-grid: irrational offsets, no boundary
    return [lo + w * (i + 0.5 + 0.37 * np.sin(3 * i + 1)) for i in range(n)]


def formulas(lev):
    def fn(ctx):
        name = ctx.choose("problem", list(T))
        row = T[name]
        which = ctx.choose("function", list(row["fns"]))
        kind = ctx.choose("grid", ["grid", "off"])
        box = row["box"]
        n = lev[len(box)]
        ls = [levels(lo, hi, n, kind) for lo, hi in box]
        obj = probs.make(row)
        ref = row["fns"][which]
        f = getattr(obj, which)
        firsts = ls[0] if len(box) > 1 else [None]
        for x0 in firsts:
            if x0 is None:
                pts = [(v,) for v in ls[0]]
            else:
                pts = [(x0,) + r for r in itertools.product(*ls[1:])]
            X = np.array(pts, float)
            got = f(X)
            ctx.op("%s.%s(%d)" % (name, which, len(X)))
            want = np.array([ref(p) for p in X.tolist()], float)
            ctx.require(np.all(np.isfinite(np.asarray(got, float))),
                        lambda: "%s.%s is not finite at %s" % (
                            name, which, X[~np.isfinite(np.asarray(got, float)).all(axis=1)][0].tolist()))
            scale = 1e-9 * max(1.0, float(np.max(np.abs(want))))
            got = np.asarray(got)
            d = np.abs(np.asarray(got, float).reshape(want.shape) - want) \
                if np.asarray(got).size == want.size else None
            ctx.require(d is not None, lambda: "%s.%s returns shape %s for %d points" % (name, which, np.shape(got), len(X)))
            i = int(np.argmax(d.max(axis=1)))
            ctx.require(d[i].max() <= 1e-9 * (1 + np.abs(want[i]).max()) + 1e-3 * scale,
                        lambda: "%s.%s at %s: got %r, formula gives %r" % (
                            name, which, X[i].tolist(), np.asarray(got)[i].tolist(), want[i].tolist()))
            ctx.state((name, which, kind, x0 if x0 is not None else 0.0))
            ctx.outcome((name, which, want))
    return fn


def discontinuities(ctx):
    """both sides of every branch in a formula"""
    name, which, pts = ctx.choose("branch", [
        ("mf_Discontinuous", "hf", [[.5], [.5 - 1e-9], [.5 + 1e-9], [0.0], [1.0]]),
        ("mf_Discontinuous", "lf", [[.5], [.5 - 1e-9], [.5 + 1e-9], [0.0], [1.0]]),
        ("mf_CurrinExp", "hf", [[.3, 0.], [.3, 1e-3], [.3, 1e-2], [0., 0.], [1., 1.]]),
        ("mf_CurrinExp", "lf", [[.3, 0.], [.3, .05], [.3, .049], [.3, .051], [0., .02], [1., .03], [0., 0.]]),
        ("mf_Park91A", "hf", [[0., .5, .5, .5], [0., 0., 0., 0.], [1e-3, .2, .9, 1.], [1., 1., 1., 1.]]),
        ("mf_Park91A", "lf", [[0., .5, .5, .5], [0., 0., 0., 0.], [1e-3, .2, .9, 1.], [1., 1., 1., 1.]]),
    ])
    row = T[name]
    obj = probs.make(row)
    for p in pts:
        got = getattr(obj, which)(np.array([p]))
        ctx.op(which)
        ctx.close(got, np.array([row["fns"][which](p)]), "%s.%s at %s" % (name, which, p), 1e-9, 1e-9)
        ctx.state((name, which, tuple(p)))


MF = [n for n, r in T.items() if "hf" in r["fns"]]


def call(ctx):
    """calling a problem routes the first design to hf, the second to lf"""
    name = ctx.choose("problem", MF)
    row = T[name]
    sizes = ctx.choose("sizes", [(1,), (2, 3), (1, 1), (3, 2), (2, 2)])
    form = ctx.choose("form", ["list of arrays", "tuple", "nested lists"])
    cost = row["cost"]
    obj = probs.make(row)
    box = np.array(row["box"])
    rng = [0.31, 0.83, 0.07, 0.55, 0.99, 0.42, 0.64]
    X = []
    for k, n in enumerate(sizes):
        u = np.array([[rng[(3 * k + 2 * i + j) % 7] for j in range(len(box))] for i in range(n)])
        X.append(box[:, 0] + u * (box[:, 1] - box[:, 0]))
    arg = dict([("list of arrays", [x.copy() for x in X]),
                ("tuple", tuple(x.copy() for x in X)),
                ("nested lists", [x.tolist() for x in X])])[form]
    out = obj(arg)
    ctx.op("call%s" % (sizes,))
    ctx.require(len(out) == len(sizes), "calling %s with %d designs gives %d results" % (name, len(sizes), len(out)))
    for k, w in enumerate(["hf", "lf"][:len(sizes)]):
        ctx.close(out[k], np.array([row["fns"][w](p) for p in X[k].tolist()]),
                  "%s called: fidelity %d" % (name, k), 1e-9, 1e-9)
    ctx.state((name, sizes, form))


def compare(ctx, obj, which, ref, X, name):
    got = np.asarray(getattr(obj, which)(X), float)
    ctx.op("%s.%s(%d)" % (name, which, len(X)))
    want = np.array([ref(p) for p in X.tolist()], float)
    ctx.require(got.shape == want.shape, lambda: "%s.%s of %d points has shape %s" % (name, which, len(X), got.shape))
    d = np.abs(got - want) / (1 + np.abs(want))
    d = np.where(np.isfinite(got), d, np.inf).max(axis=1)
    i = int(np.argmax(d))
    ctx.require(d[i] <= 1e-8, lambda: "%s.%s at %s: got %r, formula gives %r" % (
        name, which, X[i].tolist(), got[i].tolist(), want[i].tolist()))


def close_by(ctx):
    """steps of 1e-1 to 1e-8 of the domain away from the minimisers, the
    corners, the centre and the middles of the faces"""
    name = ctx.choose("problem", list(T))
    row = T[name]
    which = ctx.choose("function", list(row["fns"]))
    obj = probs.make(row)
    box = np.array(row["box"], float)
    d = len(box)
    lo, hi = box[:, 0], box[:, 1]
    mid = (lo + hi) / 2
    centres = [lo, hi, mid, lo + 0.3141 * (hi - lo)]
    if obj.optimum_scheme is not None:
        centres += list(np.atleast_2d(np.array(obj.optimum_scheme, float)))
    for j in range(d):
        for e in (lo, hi):
            c = mid.copy()
            c[j] = e[j]
            centres.append(c)
    dirs = list(np.eye(d)) + [np.ones(d), np.where(np.arange(d) % 2, -1.0, 1.0)]
    P = [c for c in centres]
    for c in centres:
        for s in range(1, 9):
            for m in (1, 3):
                for v in dirs:
                    for sign in (1, -1):
                        P.append(np.clip(c + sign * m * 10.0 ** -s * v * (hi - lo), lo, hi))
    X = np.array(P)
    compare(ctx, obj, which, row["fns"][which], X, name)
    ctx.state((name, which, X))


WIDE = probs.wide()


def many_variables(ctx):
    """the variable-dimension problems in up to 50 variables: every coordinate
    and every pair of coordinates at every combination of levels"""
    name = ctx.choose("problem", list(WIDE))
    base = ctx.choose("other coordinates", [0.5, 0.46, 0.0, 0.81])
    row = WIDE[name]
    box = np.array(row["box"])
    d = len(box)
    lv = [0.0, 0.5, 0.37, 1.0, 0.5001, 0.93]
    P = [np.full(d, base)]
    for i in range(d):
        for a in lv:
            p = np.full(d, base)
            p[i] = a
            P.append(p)
            for j in ([i + 1] if d > 12 else range(i)):
                if j < d:
                    for b in lv:
                        q = p.copy()
                        q[j] = b
                        P.append(q)
    P += list(np.mod(0.5 + np.outer(np.arange(60), np.sqrt(np.arange(2, d + 2))), 1.0))
    X = box[:, 0] + np.array(P) * (box[:, 1] - box[:, 0])
    compare(ctx, probs.make(row), "f", row["fns"]["f"], X, name)
    ctx.state((name, base))


def scenarios(tier):
    return [("close by", close_by), ("many variables", many_variables),
            ("formulas", formulas(BIG if tier == "thorough" else LEVELS)),
            ("branches", discontinuities), ("call", call)]
