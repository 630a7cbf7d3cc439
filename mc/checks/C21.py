"""Scaled kriging against the scaled low-fidelity model plus a discrepancy model."""
import numpy as np
from scipy.optimize import OptimizeResult

from mc import env, mod, ref

BOUNDS = ("1-2 variables x 2 boxes (and boxes of width 1e-7 to 2e12) x 2 (4 in thorough) responses x nested and separate samples x "
          "noise 0, known, estimated x 7 ways to set the factor (fixed; squared "
          "error or bumpiness; built-in, stand-in and supplied search) x 3 factor "
          "ranges x built-in, supplied kriging and supplied scripted sub-models; 20-50 samples in 3-5 variables")
ASSUMPTIONS = ["the built-in search for the factor is L-BFGS-B; its answer is "
               "compared with the closed-form least-squares factor through the "
               "criterion value (1e-6 relative, and its gradient of 1e-5 at the end)"]


class Table:
    """a sub-model supplied by the user, with a record of what it was given"""

    def __init__(self, a, b, sd):
        self.a, self.b, self.sd, self.noise = a, b, sd, 0.0
        self.trained = []
        self.kernel = self
        self.shift = 0.0

    @property
    def _get_param(self):
        return np.array([1.0 + abs(self.shift), 2.0])

    @property
    def _num_samples(self):
        return len(self.trained[-1][0])

    def train(self, X, Y):
        self.trained.append((np.array(X), np.array(Y)))
        self.shift = float(np.mean(Y))

    def predict(self, X, return_std=False):
        X = np.atleast_2d(X)
        m = (self.a * np.sin(X.sum(axis=1)) + self.b * X[:, 0] + self.shift).reshape(-1, 1)
        if return_std:
            return m, (self.sd * (1 + np.abs(np.cos(X[:, :1])))).reshape(-1, 1)
        return m


def answer(num_dim, b):
    out = []
    for i, (lo, hi) in enumerate(np.array(b, float)):
        out.append(0.06 if abs(lo - 1e-5) < 1e-12 else 1.2 + 0.2 * i)
    return np.array(out)


WAYS = ["fixed", "error built-in", "error supplied", "error stand-in",
        "bumpiness built-in", "bumpiness supplied", "bumpiness stand-in"]


def run(fams, dims=(1, 2), size=(4, 8), boxes=("wide", "neg")):
    def fn(ctx):
        d = ctx.choose("variables", list(dims))
        box = ctx.choose("box", list(boxes))
        fam = ctx.choose("response", fams)
        nested = ctx.choose("nested", [True, False])
        noise = ctx.choose("noise", [0.0, 0.2, None])
        way = ctx.choose("factor", WAYS)
        sub = ctx.choose("sub-models", ["built-in", "kriging"] + ["scripted"] * (box not in mod.ODD))
        rb = [1e-2, 1e1]
        if way != "fixed":
            rb = ctx.choose("factor bounds", [[1e-2, 1e1], [0.5, 0.7], [-3.0, 2.0], [15.0, 40.0]])
        c = mod.Case("sk", d, nh=size[0], nl=size[1], box=box, fam=fam, nested=nested)
        sp = float(np.std(c.yh))
        c.noise = None if noise is None else noise * sp
        kw = {}
        opt = lambda: env.ScriptedOptimizer([answer])
        if sub == "kriging":
            kw = dict(lfGP=mod.GP(c.box, optimizer=opt(), noise_prior=c.noise),
                      disc_model=mod.GP(c.box, optimizer=opt(), noise_prior=c.noise, regr=mod.Linear()))
        elif sub == "scripted":
            kw = dict(lfGP=Table(sp, 0.1, 0.3 * sp), disc_model=Table(0.2 * sp, 0.05, 0.1 * sp))
        supplied = "supplied" in way
        grid = Supplied(5)
        rec = []

        def handler(fun, x0=None, *a, **k):
            b = env._bounds_array(k["bounds"])
            x0 = np.ravel(np.array(x0, float))
            ctx.require(np.all(x0 >= b[:, 0]) and np.all(x0 <= b[:, 1]), "the search starts outside its bounds")
            rec.append((b, fun))
            if "stand-in" in way:
                x = b[:, 0] + 0.35 * (b[:, 1] - b[:, 0])
                return OptimizeResult(x=x, fun=float(np.ravel(fun(x))[0]), success=True)
            return env._real_minimize(fun, x0, *a, **k)
        if way != "fixed":
            kw.update(rho_optimize=True, rho_method=way.split()[0], rho_bound=list(rb))
            if supplied:
                kw["rho_optimizer"] = grid
        m = c.build(optimizer=opt(), **kw)
        for f in ("lfGP", "disc_model"):
            if f in kw:
                ctx.require(getattr(m, f) is kw[f], "the supplied %s is not used" % f)
        with env.scripted_minimize(handler):
            c.train(m)
        ctx.op("train")
        Q = c.q()

        # low fidelity
        if sub == "scripted":
            ctx.require(len(kw["lfGP"].trained) == 1, "low-fidelity model trained %d times" % len(kw["lfGP"].trained))
            ctx.same(kw["lfGP"].trained[0][0], c.Xl, "low-fidelity samples")
            ctx.same(kw["lfGP"].trained[0][1].reshape(-1, 1), c.yl, "low-fidelity responses")
            low = kw["lfGP"].predict
            tol_l = 1e-9 * sp
        else:
            sl = float(np.std(c.yl))
            al = answer(d + (noise is None), [[-2, 3]] * d + [[1e-5, 10]] * (noise is None))
            nl = al[-1] * sl if noise is None else c.noise
            kl = ref.gp(c.Xl, c.yl, c.box, al[:d], "ordinary", nl)
            if kl.cond > 1e7:
                ctx.outcome("skipped")
                return
            mod.against(ctx, m, kl, Q, ref.unit(Q, c.box), nl, "low-fidelity prediction", lf=True)
            low = m.predict_lf
            tol_l = kl.jitter_tol() + 1e-8 * sp
        L, ls = (np.asarray(v, float).ravel() for v in low(Q, return_std=True))
        Lh = np.asarray(low(c.Xh), float).reshape(-1, 1)

        # factor
        rho = np.ravel(np.asarray(m.rho, float))
        ctx.require(rho.size == 1, "the factor has %d values" % rho.size)
        rho = float(rho[0])

        def err(r):
            return float(np.sum((r * Lh - c.yh) ** 2))

        def theta(r):
            if sub == "scripted":
                return float(np.linalg.norm([1.0 + abs(np.mean(c.yh - r * Lh)), 2.0]))
            return float(np.linalg.norm(10.0 ** answer(d, [[-4, 3]] * d)))

        def crit(r):
            return err(r) * (theta(r) if way.startswith("bump") else 1.0)
        if way == "fixed":
            ctx.close(rho, 1.0, "factor", 0, 0)
        elif supplied:
            ctx.require(len(grid.calls) == 1, "%d searches for the factor" % len(grid.calls))
            q = grid.calls[0]
            ctx.close(q["design_space"], [rb], "bounds of the factor", 1e-12, 0)
            for P, v in q["seen"]:
                ctx.close(v, [crit(r) for r in P], "%s criterion at %s" % (way.split()[0], P), 1e-7, 1e-9 * sp ** 2)
            ctx.close(rho, float(q["x"][0]), "factor", 1e-12, 0)
        else:
            ctx.require(len(rec) == 1, "%d searches for the factor" % len(rec))
            ctx.close(rec[0][0], [rb], "bounds of the factor", 1e-12, 0)
            if "stand-in" in way:
                ctx.close(rho, rb[0] + 0.35 * (rb[1] - rb[0]), "factor", 1e-12, 0)
            elif way.startswith("error"):
                best = float((Lh * c.yh).sum() / (Lh ** 2).sum())
                best = min(max(best, rb[0]), rb[1])
                ctx.require(rb[0] - 1e-12 <= rho <= rb[1] + 1e-12, "factor %g outside its bounds" % rho)
                # the search ends where the gradient is below 1e-5
                end = (2e-5) ** 2 / (4 * float((Lh ** 2).sum()))
                ctx.require(err(rho) <= err(best) * (1 + 1e-6) + 1e-9 * err(0.0) + end,
                            lambda: "factor %g has squared error %g, the least is %g at %g" % (rho, err(rho), err(best), best))
            else:
                ctx.require(rb[0] - 1e-12 <= rho <= rb[1] + 1e-12, "factor %g outside its bounds" % rho)

        # discrepancy
        disc = c.yh - rho * Lh
        sd = float(np.std(disc))
        if sub == "scripted":
            last = kw["disc_model"].trained[-1]
            ctx.same(last[0], c.Xh, "discrepancy samples")
            ctx.close(last[1].reshape(-1, 1), disc, "discrepancy responses", 1e-9, 1e-9 * sp)
            D, ds = (np.ravel(v) for v in kw["disc_model"].predict(Q, return_std=True))
            tol_d = 1e-9 * sp
        else:
            ah = answer(d + (noise is None), [[-4, 3]] * d + [[1e-5, 10]] * (noise is None))
            nd = ah[-1] * sd if noise is None else c.noise
            if sd < 1e-3 * sp:
                ctx.outcome("skipped")
                return
            kd = ref.gp(c.Xh, disc, c.box, ah[:d], "linear" if sub == "kriging" and d == 1 else
                        "linear" if sub == "kriging" else "ordinary", nd)
            if kd.cond > 1e7 or kd.condA > 1e7:
                ctx.outcome("skipped")
                return
            U = ref.unit(Q, c.box)
            D = kd.mean(U)
            ds = np.sqrt(np.maximum(kd.epi_var(U), 0) + nd ** 2)
            amp = float(np.max(np.abs(D - np.mean(disc)))) + sd
            tol_d = kd.jitter_tol() + 1e-7 * amp + amp / sd * 1e-9 * sp
        mean, std = mod.predict(ctx, m, Q)
        plain = mod.predict(ctx, m, Q, std=False)
        amp = float(np.max(np.abs(rho * L))) + float(np.max(np.abs(D)))
        for a, w in ((mean, "mean"), (plain, "mean without std")):
            mod.column(ctx, a, len(Q), w)
            ctx.close(a.ravel(), rho * L + D, w + " of rho low + discrepancy", 0,
                      1e-10 * amp + tol_d + abs(rho) * tol_l)
        mod.column(ctx, std, len(Q), "std")
        v = rho ** 2 * ls ** 2 + ds ** 2
        ctx.close(std.ravel() ** 2, v, "variance of rho low + discrepancy", 1e-6, 1e-7 * float(np.max(v)))
        ctx.state((d, box, fam, nested, noise, way, sub, tuple(rb)))
        ctx.outcome((rho, mean))
    return fn


class Supplied:
    """a supplied search for the factor: asks one by one and in a batch"""

    def __init__(self, k):
        self.k, self.calls = k, []

    def run_optimizer(self, func, num_dim, design_space, *a, **kw):
        b = np.array(design_space, float)
        t = (np.arange(self.k) + 0.3) / self.k
        P = b[:, 0] + t[:, None] * (b[:, 1] - b[:, 0])
        one = np.array([float(np.ravel(func(p.reshape(1, -1)))[0]) for p in P])
        two = np.ravel(func(P.copy()))
        x = P[int(np.argmin(one))]
        self.calls.append(dict(design_space=b, seen=[(P.ravel(), one), (P.ravel(), two)], x=x))
        return {"best_x": x.copy(), "best_y": np.array([one.min()])}, float(one.min()), x.copy()

    def plot_optimization_history(self, *a, **k):
        pass


def scenarios(tier):
    return [("slim and vast boxes", run(["wave"], (1, 2), boxes=tuple(mod.ODD))), ("composition", run(["wave", "big", "small", "kink"] if tier == "thorough" else ["wave", "big"])),
            ("large", run(["wave", "big"], (3, 5, 10), (24, 50)) if tier == "thorough" else
             run(["wave"], (4, 9), (20, 40), ("wide",)))]
