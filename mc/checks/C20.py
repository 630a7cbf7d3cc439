"""Co-kriging against its closed form."""
import numpy as np

from mc import env, mod, ref

BOUNDS = ("1-3 variables (and 4-7 variables x 12-60 samples) x 3-4 boxes (and boxes of width 1e-7 to 2e12) x 4 responses x nested and separate samples x "
          "2-5 sizes x noise 0, small, large, estimated x 3 hyper-parameter pairs x "
          "3 scale factors; prediction points at samples, inside, corners, outside")
ASSUMPTIONS = ["condition number of the joint covariance below 1e7; agreement up "
               "to rounding times that number and the jitter of 1e-10"]
TH = [(1.0, 0.8), (1.6, 0.5), (1.3, 1.9)]


def run(boxes, sizes, dims=(1, 2, 3)):
    def fn(ctx):
        d = ctx.choose("variables", list(dims))
        box = ctx.choose("box", boxes)
        fam = ctx.choose("response", ["wave", "big", "small", "kink"])
        nh, nl = ctx.choose("samples", sizes)
        nested = ctx.choose("nested", [True, False])
        tl, th = ctx.choose("log theta at low, high fidelity", TH)
        rho = ctx.choose("scale factor", [1.0, 0.3, 2.4])
        level = ctx.choose("noise", [0.0, 0.01, 0.8, None])
        c = mod.Case("ck", d, nh=nh, nl=nl, box=box, fam=fam, nested=nested)
        sh = float(np.std(c.yh))
        tl = [tl - 0.2 * i for i in range(d)]
        th = [th + 0.1 * i for i in range(d)]
        if level is None:
            al, ah, nl_, nh_ = tl + [0.06], [rho, 0.11] + th, 0.06 * sh, 0.11 * sh
            c.noise = None
        else:
            al, ah = tl, [rho] + th
            c.noise = nl_ = nh_ = level * sh
        m = c.build(optimizer=mod.Fixed(al, ah))
        c.train(m)
        ctx.op("train")
        Q = np.vstack([c.q(), c.Xh, c.Xl[-2:]])
        k = ref.CoKrige(c.Xh, c.yh, c.Xl, c.yl, c.box, tl, th, rho, nh_, nl_)
        if max(k.cond, k.low.cond) > 1e7:
            ctx.outcome("skipped")
            return
        mean, sd = mod.predict(ctx, m, Q)
        plain = mod.predict(ctx, m, Q, std=False)
        want = k.mean(Q)
        tol = sh * (1e-9 + 3e-14 * k.cond) * (1 + float(np.max(np.abs(want - k.m))) / sh) + k.jitter_tol()
        for a, w in ((mean, "mean"), (plain, "mean without std")):
            mod.column(ctx, a, len(Q), w)
            ctx.close(a.ravel(), want, w, 0, tol)
        mod.column(ctx, sd, len(Q), "std")
        ev = k.epi_var(Q)
        prior = sh ** 2 * (rho ** 2 * k.sl + k.sig2d)
        ctx.close(sd.ravel() ** 2, np.maximum(ev, 0) + nh_ ** 2, "variance", 1e-6,
                  prior * (1e-7 + 3e-14 * k.cond) + 1e-9 * nh_ ** 2)
        ctx.state((d, box, fam, nh, nl, nested, tuple(th), rho, level))
        ctx.outcome(mean)
    return fn


def scenarios(tier):
    odd = ("slim and vast boxes", run(list(mod.ODD), [(4, 9)], (1, 2)))
    if tier == "thorough":
        return [odd, ("posterior", run(list(mod.BOX), [(4, 9), (3, 6), (6, 11), (5, 5), (2, 4)])),
                ("large", run(["wide", "neg"], [(12, 40), (30, 60)], (4, 5, 7, 10)))]
    return [odd, ("posterior", run(["wide", "neg"], [(4, 9), (3, 6)])),
            ("large", run(["wide"], [(12, 40)], (4, 9)))]
