"""Hierarchical kriging against its closed form."""
import numpy as np

from mc import env, mod, ref

BOUNDS = ("1-3 variables (and 4-7 variables x 12-60 samples) x 3-4 boxes (and boxes of width 1e-7 to 2e12) x 5 responses x nested and separate samples x "
          "2-3 sizes x noise 0, small, large, estimated x 3 hyper-parameter pairs; "
          "prediction points at samples, inside, corners, outside")
ASSUMPTIONS = ["condition number of the covariance below 1e6; agreement up to "
               "rounding times that number and the jitter of 1e-10"]
TH = [(1.0, 0.8), (1.6, 0.5), (1.3, 1.9)]


def run(boxes, sizes, dims=(1, 2, 3)):
    def fn(ctx):
        d = ctx.choose("variables", list(dims))
        box = ctx.choose("box", boxes)
        fam = ctx.choose("response", ["wave", "big", "small", "kink", "against"])
        nh, nl = ctx.choose("samples", sizes)
        nested = ctx.choose("nested", [True, False])
        tl, th = ctx.choose("log theta at low, high fidelity", TH)
        level = ctx.choose("noise", [0.0, 0.01, 0.8, None])
        c = mod.Case("hk", d, nh=nh, nl=nl, box=box, fam=fam, nested=nested)
        sl, sh = float(np.std(c.yl)), float(np.std(c.yh))
        tl = [tl - 0.2 * i for i in range(d)]
        th = [th + 0.1 * i for i in range(d)]
        al, ah = (tl, th) if level is not None else (tl + [0.06], th + [0.11])
        c.noise = None if level is None else level * sh
        nl_, nh_ = (0.06 * sl, 0.11 * sh) if level is None else (c.noise, c.noise)
        m = c.build(optimizer=mod.Fixed(al, ah))
        c.train(m)
        ctx.op("train")
        Q = np.vstack([c.q(), c.Xh, c.Xl[-2:]])
        U = ref.unit(Q, c.box)
        low = ref.gp(c.Xl, c.yl, c.box, tl, "ordinary", nl_)
        mh = float(np.mean(c.yh))
        trend = lambda U: ((low.mean(U) - mh) / sh).reshape(-1, 1)
        k = ref.Krige(ref.unit(c.Xh, c.box), c.yh, th, trend, nh_)
        if max(k.cond, low.cond) > 1e6 or k.condA > 1e6:
            ctx.outcome("skipped")
            return
        extra = low.jitter_tol() * abs(float(k.beta[0])) * 3 + low.s * 3e-14 * low.cond * abs(float(k.beta[0]))
        mean, sd = mod.predict(ctx, m, Q)
        plain = mod.predict(ctx, m, Q, std=False)
        tol = sh * (1e-9 + 3e-14 * k.cond) * (1 + abs(float(np.max(np.abs(k.mean(U) - mh)))) / sh) \
            + k.jitter_tol() + extra
        for a, w in ((mean, "mean"), (plain, "mean without std")):
            mod.column(ctx, a, len(Q), w)
            ctx.close(a.ravel(), k.mean(U), w, 0, tol)
        mod.column(ctx, sd, len(Q), "std")
        ev = k.epi_var(U)
        vt = (float(np.max(np.abs(ev))) + nh_ ** 2 + 1e-30) * (1e-7 + 3e-14 * max(k.cond, low.cond)) + 1e-8 * k.sig2 * sh ** 2
        ctx.close(sd.ravel() ** 2, np.maximum(ev, 0) + nh_ ** 2, "variance", 1e-6, vt)
        ctx.state((d, box, fam, nh, nl, nested, tuple(th), level))
        ctx.outcome(mean)
    return fn


def scenarios(tier):
    odd = ("slim and vast boxes", run(list(mod.ODD), [(4, 9)], (1, 2)))
    if tier == "thorough":
        return [odd, ("posterior", run(list(mod.BOX), [(4, 9), (3, 6), (6, 11), (5, 5), (2, 4)])),
                ("large", run(["wide", "neg"], [(12, 40), (30, 60)], (4, 5, 7, 10)))]
    return [odd, ("posterior", run(["unit", "wide", "neg"], [(4, 9), (3, 6)])),
            ("large", run(["wide"], [(12, 40)], (4, 9)))]
