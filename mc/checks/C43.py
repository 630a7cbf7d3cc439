"""The three loops with the library's own criteria and surrogates; the searches
answer with the least point of a lattice. Every point the loop evaluates must be
the least point of the criterion's definition over that lattice, with surrogates
trained afresh on what the problem has been asked so far, and (multi-fidelity) at
the fidelity with the smaller criterion."""
import numpy as np
from scipy.optimize import OptimizeResult

from mc import acq, bo, env, mod, ref
from mc.checks import C24, C25, C26

BOUNDS = ("3 loops x 8 criteria x their 1-3 surrogate kinds x 1-2 (3 in thorough) variables x 3 responses x 2 boxes x cost ratios 1, 4 and 0.5 x "
          "default or other factors of the bounds x 4 (7 in thorough) iterations in 1-3 calls x built-in or supplied search over a lattice of 60 points; "
          "1-3 constraints")
ASSUMPTIONS = ["hyper-parameter searches answer with the middle of their bounds", "searches over the design space answer with the least point of a "
               "lattice", "where two points or fidelities differ by less than rounding either may be taken"]
K = 60


def lattice(box):
    t = (np.arange(K) + 0.5)[:, None] / K
    P = np.mod(t * np.array([[1.0, 7.0, 11.0][:len(box)]]) + 0.013, 1.0)
    return box[:, 0] + P * (box[:, 1] - box[:, 0])


class Kept:
    """a function and what it has been asked"""

    def __init__(self, f):
        self.f, self.x, self.y = f, [], []

    def __call__(self, X):
        Y = np.asarray(self.f(np.array(X, float)), float).reshape(len(X), -1)
        self.x += [r.copy() for r in np.asarray(X, float)]
        self.y += [r.copy() for r in Y]
        return Y.copy()

    def data(self):
        return np.array(self.x), np.array(self.y)


class Least:
    def __init__(self, P):
        self.P = P

    def __call__(self, func, bounds=None, *a, **k):
        v = [float(np.ravel(func(p.copy(), *k.get("args", ())))[0]) for p in self.P]
        i = int(np.argmin(v))
        return OptimizeResult(x=self.P[i].copy(), fun=v[i], success=True)

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        v = np.ravel(np.asarray(func(self.P.copy(), *k.get("args", a[3:4][0] if len(a) > 3 else ())), float))
        i = int(np.argmin(v))
        return {"best_x": self.P[i].copy(), "best_y": v[i]}, v[i], self.P[i].copy()


SEARCH = env.fixed_point_minimize(0.5)


def gp(dom, X, y):
    m = mod.GP(dom.copy(), noise_prior=0.0)
    m.train(X.copy(), y.reshape(-1, 1).copy())
    return m


def single(name, dom, P, f, g, kappa):
    """values of the definition over the lattice"""
    X, y = f.data()
    m, s = gp(dom, X, y).predict(P, return_std=True)
    m, s, best = m.ravel(), s.ravel(), float(y.min())
    if name != "CEI":
        w = [C24.want(name, best, a, b, kappa) for a, b in zip(m, s)]
        return np.array([-0.5 if v is None else v for v in w])
    v = np.array([-ref.ei(best, a, b) for a, b in zip(m, s)])
    C = g.data()[1]
    for j in range(C.shape[1]):
        m, s = gp(dom, X, C[:, j]).predict(P, return_std=True)
        v = v * np.array([C25.pof1(a, b) for a, b in zip(m.ravel(), s.ravel())])
    return v


def multi(name, kind, dom, P, H, L, cr, kappa):
    """values of the definition over the lattice at both fidelities"""
    (Xh, yh), (Xl, yl) = H.data(), L.data()
    m = acq.MODELS[kind](dom.copy(), noise_prior=0.0)
    m.train([Xh.copy(), Xl.copy()], [yh.copy(), yl.copy()])
    p = np.hstack(list(m.predict(P, return_std=True)) + list(m.predict_lf(P, return_std=True)))
    ms, ss = m.predict(np.vstack([Xh, Xl]), return_std=True)
    eff = float(ms[int(np.argmin((ms + ss).ravel()))][0])
    beta = float(np.ravel(m.beta)[0]) if kind == "hk" else 0.0
    fmin = float(p[:, 0].min()) if name == "ExtendedPI" else float(yh.min())
    out = []
    for fid, S in ((0, Xh), (1, Xl)):
        if name == "ExtendedPI":
            eta = np.prod(1 - m._eval_corr(P, S, fidelity=fid), axis=1)
            v = [-(0.0 if r[1] == 0 else ref.cdf((fmin - r[0]) / r[1])) * (1.0 if fid == 0 else cr * r[3] / (abs(r[0] - r[2]) + r[1])) * e
                 for r, e in zip(p, eta)]
        else:
            v = [C26.want(name, None, x, r, cr, fmin, fid, beta, eff, kappa or (1.0, 1.96)) for x, r in zip(P, p)]
        out.append(np.array(v))
    return out


NAME = dict(hk="HierarchicalKriging", sk="ScaledKriging", ck="CoKriging")


def run(names, dims, fams, plans, kinds=None, boxes=("wide",)):
    def fn(ctx):
        name = ctx.choose("criterion", names)
        mf = name in acq.MF
        kind = ctx.choose("model", [k for k in C26.ALLOWED[name] if not kinds or k in kinds]) if mf else "gp"
        d = ctx.choose("variables", dims)
        fam = ctx.choose("response", fams)
        box = ctx.choose("box", list(boxes))
        cr = ctx.choose("cost ratio", [1.0, 4.0, 0.5]) if mf else 1.0
        kappa = ctx.choose("factors", [None, [0.5, 3.0]]) if name in ("LCB", "VFLCB") else None
        cons = ctx.choose("constraints", [1, 3]) if name == "CEI" else 0
        plan = ctx.choose("calls", plans)
        supplied = ctx.choose("search", ["built-in", "supplied"]) == "supplied"
        dom = np.array(mod.BOX[box](d), float)
        P = lattice(dom)
        s = Least(P)
        kw = dict(optimizer=s) if supplied else {}
        if kappa:
            kw["kappa"] = list(kappa)
        crit = (acq.MF if mf else dict(acq.SF, CEI=acq.SCA.CEI))[name](**kw)
        f = Kept(lambda X: mod.response(fam, X, dom))
        low = Kept(lambda X: mod.low(fam, X, dom))
        other = [v for v in ("wave", "kink", "small") if v != fam] + ["big"]

        def limits(X):
            c = np.hstack([mod.response(v, X, dom).reshape(-1, 1) for v in other[:cons]])
            c = c / np.array([1.0 if v in ("wave", "kink") else 1e3 if v == "small" else 1e-3 for v in other[:cons]])
            return c - 0.3
        g = Kept(limits)
        with env.scripted_minimize(SEARCH), env.scripted_de(s):
            if name == "CEI":
                p = bo.Problem(d, None, obj=f, box=box)
                p.f_cons, p.num_cons = g, cons
                o = bo.CBO(p, crit, num_init=4, seed=5, verbose=False)
            elif mf:
                p = bo.Problem(d, None, hf=f, lf=low, box=box)
                o = bo.MFBO(p, crit, num_init=[3, 6], surrogate_name=NAME[kind], seed=5, verbose=False)
            else:
                p = bo.Problem(d, None, obj=f, box=box)
                o = bo.UBO(p, crit, num_init=4, seed=5, verbose=False)
            ctx.op("build")
            done = 0
            for n in plan:
                nf, nl = len(f.x), len(low.x)
                o.run_optimizer(max_iter=n, **({"cost_ratio": cr} if mf else {}))
                ctx.op("run %d" % n)
                judge(ctx, name, kind, dom, P, f, low, g, cr, kappa, o, nf, nl, n, mf, done)
                done += n
        ctx.state((name, kind, d, fam, box, cr, str(kappa), cons, tuple(plan), supplied))
        ctx.outcome((name, kind, len(f.x), len(low.x)))
    return fn


def one(ctx, x, fid, want, P, tol, what):
    hit = [i for i in range(len(P)) if np.array_equal(P[i], np.ravel(x))]
    ctx.require(len(hit) == 1, lambda: "%s: the point %s was proposed by no search" % (what, np.ravel(x).tolist()))
    least = [float(v.min()) for v in want]
    v = float(want[fid][hit[0]])
    ctx.require(v <= least[fid] + tol, lambda: "%s: evaluated at fidelity %d where the criterion is %.9g, its least value is %.9g" % (what, fid, v, least[fid]))
    ctx.require(least[fid] <= min(least) + tol, lambda: "%s: fidelity %d with criterion %.9g, the other has %.9g" % (what, fid, least[fid], min(least)))


class Cut:
    def __init__(self, k, n):
        self.x, self.y = k.x[:n], k.y[:n]
    data = Kept.data


def judge(ctx, name, kind, dom, P, f, low, g, cr, kappa, o, nf, nl, n, mf, done):
    """judge the n points of one call in the order they were evaluated"""
    order = o.fidelity_query_order[-n:] if mf else [0] * n
    ctx.require(len(f.x) - nf + len(low.x) - nl == n and len(order) == n and sum(order) == len(low.x) - nl,
                lambda: "%d + %d points evaluated in %d iterations (order %s)" % (len(f.x) - nf, len(low.x) - nl, n, list(order)))
    a, b = nf, nl
    for i, fid in enumerate(order):
        if mf:
            want = multi(name, kind, dom, P, Cut(f, a), Cut(low, b), cr, kappa)
        else:
            want = [single(name, dom, P, Cut(f, a), Cut(g, a), kappa)]
        scale = max(float(np.max(np.abs(v))) for v in want)
        tol = 1e-5 * scale + 1e-7 * (1 if name not in ("LCB", "VFLCB") else scale)
        x = f.x[a] if fid == 0 else low.x[b]
        one(ctx, x, int(fid), want, P, tol, "%s, iteration %d" % (name, done + i + 1))
        a, b = a + (fid == 0), b + (fid != 0)


def scenarios(tier):
    S, M = ["LCB", "EI", "PI", "CEI"], list(acq.MF)
    if tier == "thorough":
        return [("single fidelity", run(S, [1, 2, 3], ["wave", "kink", "small"], [[7], [1, 1, 5], [3, 4]], boxes=("wide", "neg"))),
                ("fidelities", run(M, [1, 2], ["wave", "kink", "small"], [[7], [1, 1, 3]], boxes=("wide", "neg")))]
    return [("single fidelity", run(S, [1, 2], ["wave", "kink"], [[4], [1, 1, 2]], boxes=("wide", "neg"))),
            ("fidelities", run(M, [1, 2], ["wave"], [[4], [1, 2]])), ("other", run(M, [2], ["small", "kink"], [[3]], ["hk"], boxes=("neg",)))]
