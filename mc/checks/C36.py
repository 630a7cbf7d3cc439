"""Histories of trainings, added samples and replaced optimizers; what each
search is asked, and what the model then is, against a model built that way."""
import copy
import itertools

import numpy as np

from mc import env, mod
from mfpml.models.co_kriging import _GP

BOUNDS = ("all sequences of up to 3 (4 in thorough) trainings and replacements of either optimizer (two optimizers or the "
          "built-in search) on every model that offers them; all sequences of up to 3 (5) trainings and additions of 1-3 "
          "samples to the plain Gaussian process with 3 noise settings and 3 trends; every accessor after every training")
ASSUMPTIONS = ["optimizers answer with a fixed point of the bounds; the built-in search is "
               "replaced by such an answer too"]


class Answer:
    """an optimizer that answers with theta + delta and counts its calls"""

    def __init__(self, delta):
        self.delta, self.n = delta, 0

    def point(self, num_dim, b):
        out = []
        for i in range(num_dim):
            lo, hi = np.array(b, float)[i]
            if abs(lo - 1e-5) < 1e-12:
                out.append(0.05 + 0.02 * self.delta)
            elif lo > 0:
                out.append(1.3 + 0.1 * self.delta)
            else:
                out.append(min(hi, 1.0 + 0.2 * i + self.delta))
        return np.array(out)

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        self.n += 1
        x = self.point(num_dim, design_space)
        y = float(np.ravel(func(x.reshape(1, -1), *k.get("args", ())))[0])
        return {"best_x": x.copy(), "best_y": np.array([y])}, y, x.copy()

    def plot_optimization_history(self, *a, **k):
        pass


class Built(Answer):
    """the same, in the place of scipy's search"""

    def __call__(self, fun, x0=None, *a, **k):
        import scipy.optimize as so
        self.n += 1
        b = env._bounds_array(k["bounds"])
        x = self.point(len(b), b)
        return so.OptimizeResult(x=x, fun=float(np.ravel(fun(x))[0]), success=True)


SETS = dict(A=("wave", 6, 3, 0), B=("big", 8, 4, 5))


def case(kind, d, noise, name):
    fam, nl, nh, shift = SETS[name]
    return mod.Case(kind, d, nh=nh, nl=nl, fam=fam, shift=shift, noise=noise)


def setters(m, kind):
    """which optimizer of the model can be replaced, and how"""
    if kind == "gp":
        return {"hf": m.change_optimizer}
    if kind == "ck":
        return {"hf": m._update_optimizer_hf, "lf": m._update_optimizer_lf}
    if kind == "sk":
        return {"hf": m.disc_model.change_optimizer, "lf": m.lfGP.change_optimizer}
    return {"lf": m.lfGP.change_optimizer}


class Pair(Answer):
    """first call: the low-fidelity search, second call: the high-fidelity one"""

    def __init__(self, lf, hf):
        self.ds, self.n = [lf, hf], 0

    def run_optimizer(self, *a, **k):
        self.delta = self.ds[self.n % 2]
        return super().run_optimizer(*a, **k)


def accessors(ctx, m, c, what):
    n = len(c.Xh)
    if c.kind == "gp":
        ctx.require(m._num_samples == n, lambda: "%s: %r samples, expected %d" % (what, m._num_samples, n))
        ctx.same(m.sample_x, c.Xh, what + ": sample_x")
        ctx.same(m.sample_y, c.yh, what + ": sample_y")
        ctx.close(m.y_mean, np.mean(c.yh), what + ": mean of the responses", 1e-12, 1e-12)
        ctx.close(m.y_std, np.std(c.yh), what + ": deviation of the responses", 1e-12, 1e-12)
        ctx.require(m.training_time >= 0, what + ": training time")
        return
    ctx.require(m._num_xh == n and m._num_xl == len(c.Xl), lambda: "%s: %r and %r samples, expected %d and %d" % (what, m._num_xh, m._num_xl, n, len(c.Xl)))
    ctx.same(m._get_sample_hf, c.Xh, what + ": high-fidelity samples")
    ctx.same(m._get_sample_lf, c.Xl, what + ": low-fidelity samples")
    ctx.same(m.sample_yh, c.yh, what + ": high-fidelity responses")
    ctx.same(m.sample_yl, c.yl, what + ": low-fidelity responses")
    lf = m._get_lf_model if c.kind == "ck" else m._get_lfGP
    ctx.require(lf is m.lfGP, what + ": the low-fidelity model")
    ctx.same(np.array(m.bound, float), c.box, what + ": design space")
    ctx.require(m.lf_training_time >= 0 and m.hf_training_time >= 0, what + ": training times")


def optimizers(depth, dims):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        noise = ctx.choose("noise", [0.0, 0.3, None])
        d = ctx.choose("variables", dims)
        cs = {s: case(kind, d, noise, s) for s in SETS}
        P, Q, R, S = Answer(0.0), Answer(0.3), Answer(0.6), Built(0.45)
        m = cs["A"].build(optimizer=P, optimizer_restart=0)
        cur = dict(hf=P, lf=P)
        opts = dict(Q=Q, R=R, built=None)
        ops = ["train A", "train B"] + ["%s %s" % (lv, o) for lv in sorted(setters(m, kind)) for o in opts]
        n = ctx.choose("length", list(range(1, depth + 1)))
        hist, last, base = [], None, None
        with env.scripted_minimize(S):
            for i in range(n):
                op = ctx.choose("op %d" % i, ops)
                hist.append(op)
                a, b = op.split()
                if a == "train":
                    before = [o.n for o in (P, Q, R, S)]
                    data = copy.deepcopy(cs[b].data())
                    m.train(*data)
                    for t in data:          # the caller goes on using its arrays
                        for t in (t if isinstance(t, list) else [t]):
                            t[...] = 0.123
                    want = [0, 0, 0, 0]
                    for lv in (["hf"] if kind == "gp" else ["hf", "lf"]):
                        want[[P, Q, R, S].index(cur[lv])] += 1
                    got = [o.n - k for o, k in zip((P, Q, R, S), before)]
                    ctx.require(got == want, lambda: "searches used in %s: %s, expected %s" % (hist, got, want))
                    ref = cs[b].build(optimizer=cur["hf"] if kind == "gp" else Pair(cur["lf"].delta, cur["hf"].delta)) \
                        if kind != "gp" or cur["hf"] is not S else cs[b].build(optimizer=Answer(S.delta))
                    ref.train(*cs[b].data())
                    base = mod.everything(ctx, ref, cs[b].q(), cs[b].mf)
                    last = b
                else:
                    setters(m, kind)[a](opts[b])
                    cur[a] = opts[b] if opts[b] is not None else S
                ctx.op(op)
                if last:
                    got = mod.everything(ctx, m, cs[last].q(), cs[last].mf)
                    for nm, x, y in zip(mod.NAMES, got, base):
                        ctx.close(x, y, "%s after %s" % (nm, hist), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(y)))))
                    accessors(ctx, m, cs[last], "after %s" % hist)
        ctx.state((kind, noise, d, tuple(hist)))
        ctx.outcome((kind, last, cur["hf"].delta, cur["lf"].delta))
    return fn


def additions(depth, dims):
    """update_model: training on the old samples followed by the new ones"""
    def fn(ctx):
        d = ctx.choose("variables", dims)
        noise = ctx.choose("noise", [0.0, 0.2, None])
        trend = ctx.choose("trend", ["ordinary", "linear"])
        box = np.array(mod.BOX["unit"](d))
        n = ctx.choose("steps", list(range(1, depth + 1)))
        scribble = ctx.choose("arrays overwritten afterwards", [False, True])
        m = _GP(box.copy(), regr=mod.TREND[trend](), optimizer=Answer(0.2), noise_prior=noise)
        X, hist, at = np.zeros((0, d)), [], 0
        for i in range(n):
            op = ctx.choose("step %d" % i, ["train 5", "train 7"] if i == 0 else ["train 5", "add 1", "add 3"])
            hist.append(op)
            k = int(op.split()[1])
            new = mod.points(d, k, box if i < 2 else box * 1.8 - 0.4, at)  # also outside the box
            at += k
            ynew = mod.response("wave", new, box)
            x, y = new.copy(), ynew.copy()
            if op[:5] == "train":
                X, Y = new, ynew
                m.train(x, y)
            else:
                X, Y = np.vstack([X, new]), np.vstack([Y, ynew])
                m.update_model(x, y)
            ctx.op(op)
            ctx.same(x, new, "the caller's samples after %s" % hist)
            ctx.same(y, ynew, "the caller's responses after %s" % hist)
            if scribble:
                x *= 3.0
                y += 7.0
            ref = _GP(box.copy(), regr=mod.TREND[trend](), optimizer=Answer(0.2), noise_prior=noise)
            ref.train(X.copy(), Y.copy())
            T = mod.points(d, 5, box, 200)
            Q = np.vstack([X[:2], T])
            for what, a, b in zip(("mean", "std"), m.predict(Q, return_std=True), ref.predict(Q, return_std=True)):
                ctx.close(a, b, "%s after %s" % (what, hist), 1e-9, 1e-10)
            ctx.close(m.predict(Q), ref.predict(Q), "mean after %s" % hist, 1e-9, 1e-10)
            ctx.require(m._num_samples == len(X), lambda: "%d samples after %s" % (m._num_samples, hist))
            ctx.same(m.sample_x, X, "samples after %s" % hist)
            ctx.same(m.sample_y, Y, "responses after %s" % hist)
        ctx.state((d, noise, trend, scribble, tuple(hist)))
        ctx.outcome((d, len(X)))
    return fn


def scenarios(tier):
    if tier == "thorough":
        return [("optimizers", optimizers(4, [1, 2])), ("additions", additions(5, [1, 2]))]
    return [("optimizers", optimizers(3, [1])), ("additions", additions(3, [1, 2]))]
