"""Histories of trainings, against a fresh model trained on the last data."""
import contextlib

import numpy as np

from mc import env, mod

BOUNDS = ("4 model kinds x noise 0, known, estimated x 4 ways to find the "
          "hyper-parameters x all sequences of 2-3 trainings over 5 data sets "
          "of different size, scale, position and order, with or without "
          "predictions in between; 3 trainings of scaled kriging with the factor searched 4 ways on 5-40 samples; 15 histories of 7 trainings; 3 trainings on the same array objects with any part of their contents replaced; 2 models of any kinds in all 20 interleavings "
          "of train, train, predict each")
ASSUMPTIONS = ["the built-in search is either replaced by a function of its "
               "objective, or run from a global random generator set to the same state"]

# data sets: (response family, low- or single-fidelity points, high-fidelity
# points, offset in the point sequence)
SETS = {
    "A": ("wave", 6, 3, 0),
    "more": ("big", 9, 5, 3),
    "large": ("wave", 40, 18, 2),
    "few": ("small", 5, 3, 11),
    "scaled": ("kink", 6, 3, 0),
    "reordered": ("wave", 6, 3, "rev"),
}


FIVE = ["A", "more", "few", "scaled", "reordered"]


def case(kind, d, name, noise, trend):
    fam, nl, nh, shift = SETS[name]
    rev = shift == "rev"
    c = mod.Case(kind, d, nh=nh, nl=nl, fam=fam, shift=0 if rev else shift, noise=noise, trend=trend)
    if rev:
        c.Xh, c.yh = c.Xh[::-1].copy(), c.yh[::-1].copy()
        if c.mf:
            c.Xl, c.yl = np.roll(c.Xl, 2, axis=0), np.roll(c.yl, 2, axis=0)
    return c


@contextlib.contextmanager
def search(how):
    if how == "stand-in":
        with env.scripted_minimize(env.fixed_point_minimize(0.7)):
            yield
    else:
        yield


def build(c, how):
    if how == "scripted":
        return c.build()
    if how == "grid":
        return c.build(optimizer=mod.Grid(4))
    return c.build(optimizer=None, optimizer_restart=1)


def fit(m, c, how):
    np.random.seed(7)
    with search(how):
        m.train(*c.data())


def rotated(n):
    k = FIVE
    return [[k[(i * s + j) % len(k)] for i in range(n)] for j in range(len(k)) for s in (0, 1, 2)]


def retrain(names, depth, hows, dims=(1, 2), seqs=None):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        noise = ctx.choose("noise", [0.0, 0.3, None])
        how = ctx.choose("search", hows)
        d = ctx.choose("variables", dims)
        trend = ctx.choose("trend", ["ordinary", "linear"]) if kind == "gp" and d == 1 else "ordinary"
        seq = ctx.choose("trainings", seqs) if seqs else [ctx.choose("training %d" % i, names) for i in range(depth)]
        look = ctx.choose("predict in between", [False, True])
        cs = [case(kind, d, s, noise, trend) for s in seq]
        m = build(cs[0], how)
        first = {}
        for j, c in enumerate(cs):
            fit(m, c, how)
            ctx.op("train")
            if seqs:            # long histories: the model is judged after every training
                if seq[j] not in first:
                    fresh = build(c, how)
                    fit(fresh, c, how)
                    first[seq[j]] = mod.everything(ctx, fresh, c.q(), c.mf)
                for n, a, b in zip(mod.NAMES, mod.everything(ctx, m, c.q(), c.mf), first[seq[j]]):
                    ctx.close(a, b, "%s after training %d of %s" % (n, j, seq), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
            if look and c is not cs[-1]:
                mod.everything(ctx, m, c.q(), c.mf)
            if look and hasattr(m, "_logLikelihood") and noise is not None and how == "scripted":
                m._logLikelihood(np.full((1, len(np.ravel(m.opt_param))), 0.7))
        c = cs[-1]
        fresh = build(c, how)
        fit(fresh, c, how)
        Q = c.q()
        want = mod.everything(ctx, fresh, Q, c.mf)
        got = mod.everything(ctx, m, Q, c.mf)
        for n, a, b in zip(mod.NAMES, got, want):
            ctx.close(a, b, "%s after trainings on %s" % (n, seq), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
        if hasattr(fresh, "noise"):
            a, b = (np.asarray(v.noise, float) for v in (m, fresh))
            ctx.close(a, b, "reported noise after trainings on %s" % seq, 1e-9, 1e-12)
        ctx.state((kind, noise, how, d, trend, tuple(seq), look))
        ctx.outcome(want[0])
    return fn


def reused(ctx):
    """trained again on the same array objects, their contents replaced"""
    kind = ctx.choose("model", mod.KINDS)
    noise = ctx.choose("noise", [0.0, 0.3, None])
    how = ctx.choose("search", ["grid", "stand-in"])
    d = ctx.choose("variables", [1, 2])
    seq = [ctx.choose("training %d" % i, ["A", "scaled", "reordered", "responses"]) for i in range(3)]
    part = ctx.choose("replaced", ["everything", "samples", "responses", "high fidelity"])
    first = case(kind, d, "A", noise, "ordinary")
    X, Y = first.data()
    lists = lambda v: v if first.mf else [v]
    m = build(first, how)
    for s in seq:
        c = case(kind, d, "A" if s == "responses" else s, noise, "ordinary")
        if s == "responses":
            c.yh = -2.0 * c.yh + 0.3
            if c.mf:
                c.yl = 1.0 - c.yl
        nX, nY = c.data()
        for i, (a, b) in enumerate(zip(lists(X), lists(nX))):
            if part in ("everything", "samples") or part == "high fidelity" and i == 0:
                a[:] = b
        for i, (a, b) in enumerate(zip(lists(Y), lists(nY))):
            if part in ("everything", "responses") or part == "high fidelity" and i == 0:
                a[:] = b
        np.random.seed(7)
        with search(how):
            m.train(X, Y)
        ctx.op("train")
    copy = lambda v: [a.copy() for a in v] if first.mf else v.copy()
    fresh = build(first, how)
    np.random.seed(7)
    with search(how):
        fresh.train(copy(X), copy(Y))
    Q = first.q()
    for n, a, b in zip(mod.NAMES, mod.everything(ctx, m, Q, first.mf), mod.everything(ctx, fresh, Q, first.mf)):
        ctx.close(a, b, "%s after trainings on the same arrays holding %s (%s)" % (n, seq, part), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
    ctx.state((kind, noise, how, d, tuple(seq), part))


class Line(mod.Grid):
    """the best of nine points spread over the whole range"""

    def run_optimizer(self, func, num_dim, design_space, *a, **kw):
        b = np.array(design_space, float).reshape(-1, 2)
        P = b[:, 0] + np.linspace(0.05, 0.95, 9)[:, None] * (b[:, 1] - b[:, 0])
        v = np.array([float(np.ravel(func(p.reshape(1, -1)))[0]) for p in P])
        x = P[int(np.argmin(v))]
        return {"best_x": x.copy(), "best_y": np.array([v.min()])}, float(v.min()), x.copy()


FACTOR = {"A": 1.0, "more": 0.5, "large": 2.4, "scaled": 1.6}


def factor(ctx):
    """scaled kriging whose factor is found at every training"""
    how = ctx.choose("search", ["grid", "stand-in"])
    method = ctx.choose("criterion", ["error", "bumpiness"])
    own = ctx.choose("search for the factor", ["supplied", "built-in"])
    noise = ctx.choose("noise", [0.0, None])
    seq = [ctx.choose("training %d" % i, ["A", "more", "large", "scaled"]) for i in range(3)]
    cs = [case("sk", 1, s, noise, "ordinary") for s in seq]
    for s, c in zip(seq, cs):
        c.yh = FACTOR[s] * c.yh

    def make():
        return cs[0].build(optimizer=mod.Grid(4) if how == "grid" else None, optimizer_restart=1, rho_optimize=True,
                           rho_method=method, rho_bound=[0.2, 3.0], rho_optimizer=Line() if own == "supplied" else None)

    def train(m, c):
        np.random.seed(7)
        with env.scripted_minimize(env.fixed_point_minimize(0.7)):
            m.train(*c.data())
        ctx.op("train")
    m, fresh, c = make(), make(), cs[-1]
    for x in cs:
        train(m, x)
    train(fresh, c)
    ctx.close(np.ravel(m.rho), np.ravel(fresh.rho), "factor after trainings on %s" % seq, 1e-9, 0)
    Q = c.q()
    for n, a, b in zip(mod.NAMES, mod.everything(ctx, m, Q, True), mod.everything(ctx, fresh, Q, True)):
        ctx.close(a, b, "%s after trainings on %s" % (n, seq), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
    ctx.state((how, method, own, noise, tuple(seq)))
    ctx.outcome(round(float(np.ravel(fresh.rho)[0]), 6))


def merges(a, b):
    if not a or not b:
        return [tuple(a + b)]
    return [(a[0],) + r for r in merges(a[1:], b)] + [(b[0],) + r for r in merges(a, b[1:])]


def pair(ctx):
    """two models in every interleaving of their steps"""
    k1 = ctx.choose("first model", mod.KINDS)
    k2 = ctx.choose("second model", mod.KINDS)
    noise = None if k1 != "ck" else 0.3
    shared = ctx.choose("shared optimizer", [True, False])
    order = ctx.choose("interleaving", merges([("a", 0), ("a", 1), ("a", 2)],
                                              [("b", 0), ("b", 1), ("b", 2)]))
    cs = dict(a=[case(k1, 1, "A", noise, "ordinary"), case(k1, 1, "more", noise, "ordinary")],
              b=[case(k2, 1, "few", noise, "ordinary"), case(k2, 1, "scaled", noise, "ordinary")])
    opt = mod.Grid(4)
    ms = {}
    for who in "ab":
        ms[who] = cs[who][0].build(optimizer=opt if shared else mod.Grid(4))
    alone = {}
    for who in "ab":
        m = cs[who][0].build(optimizer=mod.Grid(4))
        for i in (0, 1):
            fit(m, cs[who][i], "grid")
            alone[who, i] = mod.everything(ctx, m, cs[who][i].q(), cs[who][i].mf)
    last = {}
    for who, step in order:
        if step < 2:
            fit(ms[who], cs[who][step], "grid")
            last[who] = step
        ctx.op("train" if step < 2 else "predict")
        for w in last:
            c = cs[w][last[w]]
            got = mod.everything(ctx, ms[w], c.q(), c.mf)
            for n, a, b in zip(mod.NAMES, got, alone[w, last[w]]):
                ctx.close(a, b, "%s of model %s after %s" % (n, w, order), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
    ctx.state((k1, k2, noise, shared, order))


def scenarios(tier):
    out = [("retrain", retrain(FIVE, 2, ["scripted", "grid", "stand-in"])),
           ("built-in search", retrain(["A", "few"], 2, ["built-in"], [1])),
           ("retrain thrice", retrain(["A", "more", "few"], 3, ["grid"])),
           ("pair", pair), ("factor", factor), ("reused arrays", reused),
           ("many trainings", retrain(None, 0, ["grid", "stand-in"], (1, 4), rotated(26 if tier == "thorough" else 13)))]
    if tier == "thorough":
        out.append(("retrain long", retrain(FIVE, 4, ["grid", "scripted", "stand-in"])))
    return out
