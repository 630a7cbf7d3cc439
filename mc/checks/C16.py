"""Symmetries of the training data, on the real models."""
import itertools

import numpy as np

from mc import env, mod

BOUNDS = ("4 model kinds x 1-2 variables x noise 0, known, estimated x 3 trends "
          "(single fidelity): all orders of 4 (5 in thorough) samples and of 3 x 4 high- and "
          "low-fidelity samples; 6 scales x 4 offsets of the responses; 4 "
          "stretches x 3 shifts of the design space; hyper-parameters fixed or "
          "chosen by a search over the likelihood; the same maps and 5 x 4 orders "
          "of 10-30 samples in 3-6 variables")
ASSUMPTIONS = ["well-conditioned hyper-parameters; agreement up to the library's "
               "jitter of 1e-10 in the correlations"]


def perms(n):
    return list(itertools.permutations(range(n)))


def choose_case(ctx, nh, nl, n1, dims=(1, 2)):
    kind = ctx.choose("model", mod.KINDS)
    d = ctx.choose("variables", list(dims))
    noise = ctx.choose("noise", [0.0, 0.15, None])
    fam = ctx.choose("response", ["wave", "kink"])
    search = ctx.choose("hyper-parameters", ["fixed", "searched"])
    trend = "ordinary"
    if kind == "gp":
        trend = ctx.choose("trend", ["ordinary", "linear"] if d > 1 else list(mod.TREND))
    opt = (lambda: mod.Grid(3)) if search == "searched" else None
    c = mod.Case(kind, d, nh=nh, nl=n1 if kind == "gp" else nl, fam=fam,
                 noise=noise, opt=opt, trend=trend, nested=False)
    return c


def compare(ctx, got, want, f, what, scale):
    scale = scale + float(np.max(want[1]))
    for n, a, b in zip(mod.NAMES, got, want):
        if n.endswith("std") and "without" not in n:
            ctx.close((a / f(1, True)) ** 2, b ** 2, "%s %s" % (n, what), 2e-6, 1e-7 * scale ** 2)
        else:
            ctx.close(a, f(b, False), "%s %s" % (n, what), 0, abs(f(1, True)) * 1e-6 * scale + 1e-12 * float(np.max(np.abs(a))))


def ident(b, s):
    return b


def orders(n1):
    def fn(ctx):
        c = choose_case(ctx, 3, 4, n1)
        m = c.train(c.build())
        Q = c.q()
        want = mod.everything(ctx, m, Q, c.mf)
        scale = float(np.std(c.yh)) * 3
        if not c.mf:
            jobs = [(p, None) for p in perms(len(c.Xh))]
        else:
            jobs = [(p, q) for p in perms(3) for q in perms(4)]
        for p, q in jobs:
            p = list(p)
            m2 = c.build()
            if c.mf:
                q = list(q)
                m2.train([c.Xh[p], c.Xl[q]], [c.yh[p], c.yl[q]])
            else:
                m2.train(c.Xh[p], c.yh[p])
            ctx.op("train reordered")
            got = mod.everything(ctx, m2, Q, c.mf)
            compare(ctx, got, want, ident, "with samples in order %s %s" % (p, q), scale)
            ctx.state((c.kind, c.d, c.noise, c.trend, tuple(p), tuple(q or ())))
        ctx.outcome(want[0])
    return fn


def affine(ctx, *size):
    c = choose_case(ctx, *(size or (4, 6, 6)))
    a = ctx.choose("scale", [1e-9, 1e-3, 0.5, 7.0, 1e4, 1e9])
    b = ctx.choose("offset in scaled standard deviations", [0.0, 1.0, -30.0, 1e3])
    b = b * a * float(np.std(c.yh))
    Q = c.q()
    want = mod.everything(ctx, c.train(c.build()), Q, c.mf)
    kw = {} if c.noise is None else dict(noise_prior=c.noise * a)
    m = c.build(**kw)
    if c.mf:
        m.train([c.Xh, c.Xl], [a * c.yh + b, a * c.yl + b])
    else:
        m.train(c.Xh, a * c.yh + b)
    ctx.op("train mapped")
    got = mod.everything(ctx, m, Q, c.mf)
    compare(ctx, got, want, lambda v, s: a if s else a * v + b,
            "with responses mapped to %g y + %g" % (a, b), float(np.std(c.yh)) * 3)
    ctx.state((c.kind, c.d, c.noise, c.trend, a, b))
    ctx.outcome(want[0])


def moved(ctx, *size):
    c = choose_case(ctx, *(size or (4, 6, 6)))
    st = np.resize(ctx.choose("stretch", [[2.0, 2.0], [1e-3, 5.0], [100.0, 1e-2], [1.0, 1.0]]), c.d)
    w = c.box[:, 1] - c.box[:, 0]
    sh = ctx.choose("shift in widths", [0.0, 1.0, -20.0]) * w * st
    Q = c.q()
    want = mod.everything(ctx, c.train(c.build()), Q, c.mf)
    f = lambda X: X * st + sh
    m = c.build(design_space=f(c.box.T).T.copy())
    if c.mf:
        m.train([f(c.Xh), f(c.Xl)], [c.yh, c.yl])
    else:
        m.train(f(c.Xh), c.yh)
    ctx.op("train moved")
    got = mod.everything(ctx, m, f(Q), c.mf)
    compare(ctx, got, want, lambda v, s: 1 if s else v,
            "with the design space moved by x*%s+%s" % (st, sh), float(np.std(c.yh)) * 3)
    ctx.state((c.kind, c.d, c.noise, c.trend, st, sh))
    ctx.outcome(want[0])


def rotations(nh, nl, n1, dims):
    """larger data: reversed, rotated and interleaved orders of the samples"""
    def fn(ctx):
        c = choose_case(ctx, nh, nl, n1, dims)
        m = c.train(c.build())
        Q = c.q()
        want = mod.everything(ctx, m, Q, c.mf)
        scale = float(np.std(c.yh)) * 3

        def order(n, how):
            r = list(range(n))
            return dict(kept=r, reversed=r[::-1], rotated=r[n // 3:] + r[:n // 3],
                        interleaved=r[::2] + r[1::2], swapped=[1, 0] + r[2:],
                        last=r[:-2] + [n - 1, n - 2])[how]
        a = ctx.choose("order", ["reversed", "rotated", "interleaved", "swapped", "last"])
        b = ctx.choose("low-fidelity order", ["kept", "reversed", "rotated", "last"]) if c.mf else "kept"
        p, m2 = order(len(c.Xh), a), c.build()
        if c.mf:
            q = order(len(c.Xl), b)
            m2.train([c.Xh[p], c.Xl[q]], [c.yh[p], c.yl[q]])
        else:
            m2.train(c.Xh[p], c.yh[p])
        ctx.op("train reordered")
        compare(ctx, mod.everything(ctx, m2, Q, c.mf), want, ident, "with samples %s, %s" % (a, b), scale)
        ctx.state((c.kind, c.d, c.noise, c.trend, a, b))
        ctx.outcome(want[0])
    return fn


def scenarios(tier):
    big = tier == "thorough"
    size = (10, 30, 30, (3, 4, 6, 10) if big else (4, 9))
    return [("orders", orders(5 if big else 4)), ("affine", affine), ("moved", moved),
            ("large orders", rotations(*size)),
            ("large affine", lambda ctx: affine(ctx, *size)),
            ("large moved", lambda ctx: moved(ctx, *size))]
