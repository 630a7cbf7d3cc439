"""Interpolation, zero and non-negative uncertainty, shapes."""
import numpy as np

from mc import env, mod

BOUNDS = ("4 model kinds x 1-3 variables (and 4-7 variables x 12-60 samples) x 4 boxes (and boxes of width 1e-7 to 2e12) x 4 responses x 2-4 sizes x 3 "
          "hyper-parameter levels x noise 0, three known levels, estimated; nested "
          "and separate high-fidelity samples; 16-400 prediction points each")
ASSUMPTIONS = ["hyper-parameters keep the covariance well conditioned (training "
               "residuals up to 1e-5 of the spread of the responses are jitter)"]


def hyper(level):
    def answer(num_dim, b):
        b = np.array(b, float)
        out = []
        for i in range(num_dim):
            if abs(b[i, 0] - 1e-5) < 1e-12:
                out.append([0.02, 0.2, 1.0][level])
            elif b[i, 0] > 0:
                out.append([0.4, 1.0, 2.5][level])
            else:
                out.append([0.9, 1.4, 2.0][level] - 0.1 * i)
        return np.array(out)
    return answer


def check(boxes, sizes, dims=(1, 2, 3)):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        d = ctx.choose("variables", list(dims))
        box = ctx.choose("box", boxes)
        fam = ctx.choose("response", ["wave", "big", "small", "kink"])
        nh, nl = ctx.choose("samples", sizes)
        level = ctx.choose("hyper-parameters", [0, 1, 2])
        noise = ctx.choose("noise in spreads", [0.0, 1e-3, 0.1, 2.0, None])
        nested = ctx.choose("nested", [True, False]) if kind != "gp" else True
        trend = ctx.choose("trend", list(mod.TREND) if d == 1 else ["ordinary", "linear"]) if kind == "gp" else "ordinary"
        c = mod.Case(kind, d, nh=nh, nl=nl, box=box, fam=fam, nested=nested, trend=trend)
        spread = float(np.std(c.yh))
        c.noise = None if noise is None else noise * spread
        m = c.train(c.build(optimizer=env.ScriptedOptimizer([hyper(level)])))
        ctx.op("train")
        X = np.vstack([c.Xh, c.q(), mod.points(d, 30, c.box, 5)])
        for lf in ([False, True] if c.mf else [False]):
            name = "low-fidelity " if lf else ""
            mean, sd = mod.predict(ctx, m, X, lf=lf)
            plain = mod.predict(ctx, m, X, std=False, lf=lf)
            for a, w in ((mean, "mean"), (sd, "std"), (plain, "mean without std")):
                mod.column(ctx, a, len(X), name + w)
            ctx.require(np.all(sd >= 0), lambda: "%sstd is negative: %s" % (name, sd.min()))
            one = mod.predict(ctx, m, X[:1], lf=lf)
            mod.column(ctx, one[0], 1, name + "mean of one point")
            mod.column(ctx, one[1], 1, name + "std of one point")
            if c.noise:
                ctx.require(np.all(sd >= c.noise * (1 - 1e-9)),
                            lambda: "%sstd %g is below the noise %g" % (name, sd.min(), c.noise))
            if c.noise == 0.0:
                Z, y = (c.Xl, c.yl) if lf else (c.Xh, c.yh)
                mean, sd = mod.predict(ctx, m, Z, lf=lf)
                amp = spread + float(np.std(c.yl)) if c.mf else spread
                ctx.close(mean, y, name + "mean at the samples", 0, 1e-5 * amp + 1e-12 * float(np.max(np.abs(y))))
                far = float(np.max(mod.predict(ctx, m, X, lf=lf)[1]))
                if kind != "sk" or nested or lf:
                    ctx.close(sd, np.zeros_like(sd), name + "std at the samples", 0, 3e-4 * far + 1e-9 * amp)
                ctx.require(far > 1e-3 * amp if not lf else far > 0,
                            lambda: "%sstd vanishes everywhere" % name)
            if c.noise == 0.0 or c.noise:
                ctx.outcome((kind, mean))
        if noise == 2.0:
            # noise in the units of the data: it dominates at the samples
            s1 = mod.predict(ctx, m, c.Xh)[1]
            ctx.require(np.all(s1 <= 4 * c.noise * (3 if c.mf else 1)),
                        lambda: "std %g at the samples for noise %g" % (s1.max(), c.noise))
        ctx.state((kind, d, box, fam, nh, nl, level, noise, nested, trend))
    return fn


def scenarios(tier):
    odd = ("slim and vast boxes", check(list(mod.ODD), [(4, 9)], (1, 2)))
    if tier == "thorough":
        return [odd, ("uncertainty", check(list(mod.BOX), [(4, 9), (3, 5), (6, 12), (5, 7)])),
                ("large", check(["wide", "neg"], [(12, 40), (30, 60)], (4, 5, 7, 10)))]
    return [odd, ("uncertainty", check(["wide", "neg"], [(4, 9), (3, 6)])),
            ("large", check(["wide"], [(12, 40)], (4, 9)))]
