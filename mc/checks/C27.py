"""Acquisition queries under a scripted search."""
import numpy as np
from scipy.optimize import OptimizeResult

from mc import acq, env, mod
from mc.checks.C26 import ALLOWED

BOUNDS = ("8 criteria x their 1-3 surrogate kinds x 1-2 variables x 2 boxes x built-in "
          "and supplied search x every pair of answers over 4 points of the box, "
          "true criteria and criteria scripted over four values (all orderings and "
          "ties, and differences down to 1e-13); real searches in one variable against grids of 401 points (in two, "
          "thorough only, against every point the search met); "
          "surrogates of 8-25 samples in 3-10 variables with 5 constraints")
ASSUMPTIONS = ["a scripted search answers with a point of the box and the true "
               "criterion there", "which search belongs to which fidelity is told "
               "from the values of the criterion it is given"]
SURE = ["LCB", "EI", "PI", "CEI"]
NOISE = 0.3


def lattice(box, k=4):
    box = np.array(box, float)
    t = (np.arange(k) + 0.37)[:, None] / k
    P = np.mod(t * np.array([[1.0, 3.0, 5.0, 2.0, 7.0, 4.0, 9.0, 6.0, 11.0, 8.0][:len(box)]]), 1.0)
    return box[:, 0] + P * (box[:, 1] - box[:, 0])


def surrogates(name, kind, d, box, k=2, size=(4, 6, 7)):
    """(list of surrogates, case)"""
    if name in SURE:
        c = mod.Case("gp", d, nl=size[1], box=box, noise=0.0)
        c.noise = NOISE * float(np.std(c.yh))
        out = [c.train(c.build())]
        if name == "CEI":
            for fam in ("kink", "small", "big", "kink", "small")[:k]:
                e = mod.Case("gp", d, nl=size[1], box=box, fam=fam)
                e.yh = (e.yh - np.mean(e.yh)) / np.std(e.yh)
                e.noise = NOISE
                out.append(e.train(e.build()))
        return out, c
    c = mod.Case(kind, d, nh=size[0], nl=size[2], box=box)
    c.noise = NOISE * float(np.std(c.yh))
    return [c.train(c.build())], c


def criterion(name, a, ms, x, cr, fmin, fid=0):
    if name == "CEI":
        v = a.eval(x, ms[0], ms[1:])
    elif name in SURE:
        v = a.eval(x, ms[0])
    elif name == "VFEI":
        v = a.eval(x, fmin=fmin, mf_surrogate=ms[0], fidelity=fid)
    elif name == "ExtendedPI":
        v = a.eval(x, mf_surrogate=ms[0], fmin=fmin, cost_ratio=cr, fidelity=fid)
    else:
        v = a.eval(x, mf_surrogate=ms[0], cost_ratio=cr, fidelity=fid)
    return float(np.ravel(v)[0])


def query(name, a, ms, cr, fmin):
    if name == "CEI":
        return a.query(ms[0], ms[1:])
    if name in SURE:
        return a.query(ms[0])
    return a.query(mf_surrogate=ms[0], cost_ratio=cr, fmin=fmin)


def make(name, optimizer):
    cls = acq.SF.get(name) or acq.MF.get(name) or acq.SCA.CEI
    return cls(optimizer=optimizer)


def pick(ctx, dims=(1, 2)):
    name = ctx.choose("criterion", SURE + list(acq.MF))
    kind = "gp" if name in SURE else ctx.choose("model", ALLOWED[name])
    d = ctx.choose("variables", list(dims))
    return name, kind, d


def searched(ctx, dims=(1, 2), size=(4, 6, 7), cons=(1, 3)):
    """the search gets the criterion of the surrogate over its box"""
    name, kind, d = pick(ctx, dims)
    box = ctx.choose("box", ["wide", "neg"])
    supplied = ctx.choose("search", ["built-in", "supplied"]) == "supplied"
    cr = ctx.choose("cost ratio", [1.0, 6.0, 1 / 3]) if name not in SURE else 1.0
    ans = [ctx.choose("first answer", [0, 1, 2, 3])]
    if name not in SURE:
        ans.append(ctx.choose("second answer", [0, 1, 2, 3]))
    ms, c = surrogates(name, kind, d, box, ctx.choose("constraints", list(cons)) if name == "CEI" else 1, size)
    P = lattice(c.box)
    fmin = float(c.yh.min())
    state = [m.predict(P, return_std=True) for m in ms]
    least = np.array([ms[0].predict(p.reshape(1, -1))[0, 0] for p in P])
    seen = []                                   # (values over P, answer, value)
    best = {}

    def look(func, args):
        """values of the objective over P, point by point"""
        ctx.op("criterion", len(P))
        return np.array([float(np.ravel(func(p.copy(), *args))[0]) for p in P])

    def bounds(b):
        ctx.close(np.array(b, float), c.box, "the search is over another box than the surrogate's", 1e-12, 1e-15)

    def handler(func, bnds=None, *a, **k):
        bounds(env._bounds_array(bnds))
        v = look(func, k.get("args", ()))
        if np.allclose(v, least, rtol=1e-7, atol=1e-12):   # extended PI: least prediction
            i = int(np.argmin(v))
            best["fmin"] = v[i]
        else:
            i = ans[len(seen) % len(ans)]
            seen.append((v, i))
        return OptimizeResult(x=P[i].copy(), fun=v[i], success=True)

    class Opt:
        def run_optimizer(self, func, num_dim, design_space, *a, **k):
            ctx.require(num_dim == d, "search over %s variables" % num_dim)
            bounds(design_space)
            v = look(func, k.get("args", ()))
            w = np.ravel(func(P.copy(), *k.get("args", ())))
            ctx.close(w, v, "criterion of a population", 1e-7, 1e-9 * (1e-9 + float(np.max(np.abs(v)))))
            i = ans[len(seen) % len(ans)]
            seen.append((v, i))
            x = P[i].copy()
            return {"best_x": x, "best_y": v[i]}, v[i], x
    a = make(name, Opt() if supplied else None)
    with env.scripted_de(handler):
        out = query(name, a, ms, cr, fmin)
    ctx.op("query")
    ctx.require(len(seen) == len(ans), lambda: "%d searches, expected %d" % (len(seen), len(ans)))
    if name == "ExtendedPI":
        ctx.require("fmin" in best, "the least prediction is not searched for")
        fmin = best["fmin"]
    fresh = make(name, None)
    crit = [np.array([criterion(name, fresh, ms, p, cr, fmin, f) for p in P]) for f in range(len(ans))]
    tol = [1e-9 * (1e-12 + float(np.max(np.abs(v)))) for v in crit]
    if len(ans) == 1:
        ctx.close(seen[0][0], crit[0], "the criterion that is searched", 0, tol[0])
        ctx.same(np.ravel(out), P[seen[0][1]], "queried point")
        ctx.require(len(np.ravel(out)) == d, "queried point has another dimension")
    else:
        ok = [[np.allclose(s[0], crit[f], rtol=1e-9, atol=tol[f]) for f in (0, 1)] for s in seen]
        order = [0, 1] if ok[0][0] and ok[1][1] else [1, 0]
        ctx.require(ok[order.index(0)][0], lambda: "the high-fidelity criterion is not searched: %s" % seen)
        ctx.require(ok[order.index(1)][1], lambda: "the low-fidelity criterion is not searched: %s" % seen)
        hi, lo = seen[order.index(0)], seen[order.index(1)]
        vh, vl = hi[0][hi[1]], lo[0][lo[1]]
        x, f = out
        wf = 0 if vh <= vl else 1
        wx = P[hi[1] if wf == 0 else lo[1]]
        if abs(vh - vl) > 1e-12 * (1 + abs(vh)) or vh == vl:
            ctx.require(int(f) == wf, lambda: "fidelity %s chosen for criteria %g (high) and %g (low)" % (f, vh, vl))
            ctx.same(np.asarray(x, float), wx.reshape(1, -1), "queried point")
    for m, (p0, s0) in zip(ms, state):
        p1, s1 = m.predict(P, return_std=True)
        ctx.same(p1, p0, "the query changed the predictions of the surrogate")
        ctx.same(s1, s0, "the query changed the predictions of the surrogate")
    ctx.state((name, kind, d, box, supplied, cr, tuple(ans)))
    ctx.outcome(np.ravel(out[0] if len(ans) == 2 else out))


def ranked(ctx):
    """all orderings and ties of the criteria at both fidelities"""
    name = ctx.choose("criterion", list(acq.MF))
    kind = ctx.choose("model", ALLOWED[name])
    supplied = ctx.choose("search", ["built-in", "supplied"]) == "supplied"
    vh = ctx.choose("high-fidelity criterion", [-2.0, -1.0, 0.0, 3.0])
    near = {-2.0: [-2 - 1e-7, -2 + 1e-10], -1.0: [-1 - 1e-10, -1 + 1e-12], 0.0: [-1e-13, 1e-13]}
    vl = ctx.choose("low-fidelity criterion", [-2.0, -1.0, 0.0, 3.0] + near.get(vh, []))
    d = ctx.choose("variables", [1, 2])
    shape = ctx.choose("shape of the value", ["float", "array"])
    ms, c = surrogates(name, kind, d, "wide")
    P = lattice(c.box)
    asked = []

    class Scripted(acq.MF[name]):
        def eval(self, x, *a, **k):
            f = k.get("fidelity", a[-1] if a else None)
            v = {0: vh, 1: vl}[f]
            return np.full(len(np.reshape(x, (-1, d))), v)

    def value(v):
        return np.array([v]) if shape == "array" else v

    def handler(func, bnds=None, *a, **k):
        v = float(np.ravel(func(P[0].copy(), *k.get("args", ())))[0])
        if np.isclose(v, ms[0].predict(P[:1])[0, 0], rtol=1e-12, atol=0):
            return OptimizeResult(x=P[0].copy(), fun=v, success=True)
        asked.append(v)
        return OptimizeResult(x=P[len(asked)].copy(), fun=value(v) if shape == "float" else v, success=True)

    class Opt:
        def run_optimizer(self, func, num_dim, design_space, *a, **k):
            v = float(np.ravel(func(P[:1].copy(), *k.get("args", ())))[0])
            asked.append(v)
            x = P[len(asked)].copy()
            return {"best_x": x, "best_y": value(v)}, value(v), x
    a = Scripted(optimizer=Opt() if supplied else None)
    with env.scripted_de(handler):
        x, f = query(name, a, ms, 2.0, 0.0)
    ctx.op("query")
    ctx.require(sorted(asked) == sorted([vh, vl]), lambda: "searched criteria %s" % asked)
    wf = 0 if vh <= vl else 1
    ctx.require(int(f) == wf, lambda: "fidelity %s chosen for criteria %g (high) and %g (low)" % (f, vh, vl))
    wanted = vh if wf == 0 else vl
    rows = [P[i + 1] for i, v in enumerate(asked) if v == wanted]
    if vh == vl:
        rows = [P[1], P[2]]
    ctx.require(any(np.array_equal(np.asarray(x, float), r.reshape(1, -1)) for r in rows),
                lambda: "queried point %s is not the answer for fidelity %d" % (x, wf))
    ctx.state((name, kind, supplied, vh, vl, d, shape))


def real(dims, reps):
    def fn(ctx):
        name = ctx.choose("criterion", SURE + list(acq.MF))
        kind = "gp" if name in SURE else ctx.choose("model", ALLOWED[name])
        d = ctx.choose("variables", dims)
        box = ctx.choose("box", reps)
        ms, c = surrogates(name, kind, d, box)
        np.random.seed(3)
        a = make(name, None)
        fmin = float(c.yh.min())
        least = []

        def handler(func, bnds=None, *ar, **k):
            met = []

            def noted(x, *args):
                v = func(x, *args)
                met.append(float(np.ravel(v)[0]))
                return v
            r = env._real_de(noted, bnds, *ar, **dict(k, maxiter=60, popsize=12, seed=1))
            least.append((min(met), float(np.ravel(r.fun)[0])))
            return r
        with env.scripted_de(handler):
            out = query(name, a, ms, 2.0, fmin)
        ctx.op("query")
        if name == "ExtendedPI":
            fmin = least.pop(0)[1]
        n = 401 if d == 1 else 41
        g = np.meshgrid(*[np.linspace(lo, hi, n) for lo, hi in c.box])
        G = np.stack([v.ravel() for v in g], axis=1)

        def values(x, f):
            if name == "CEI":
                return np.ravel(a.eval(x, ms[0], ms[1:]))
            if name in SURE:
                return np.ravel(a.eval(x, ms[0]))
            if name == "VFEI":
                return np.ravel(a.eval(x, fmin, ms[0], f))
            if name == "ExtendedPI":
                return np.ravel(a.eval(x, ms[0], fmin, 2.0, f))
            return np.ravel(a.eval(x, ms[0], 2.0, f))
        if name in SURE:
            x, fids = np.reshape(out, (1, -1)), [0]
            got = values(x, 0)[0]
        else:
            x, f = out
            fids = [0, 1]
            got = values(x, f)[0]
        ctx.require(np.all(x[0] >= c.box[:, 0] - 1e-12) and np.all(x[0] <= c.box[:, 1] + 1e-12), "queried point outside the box")
        if d == 2:            # the search may end in a local optimum of a multi-modal
            w = min(a for a, b in least)                # criterion: compare with all it met
            ctx.require(got <= w + 1e-9 * (1 + abs(w)), lambda: "criterion %g at the queried point, %g met by the search" % (got, w))
        v = np.concatenate([values(G[i:i + 41], f) for f in fids for i in range(0, len(G), 41)])
        ctx.op("criterion", len(v))
        span = float(v.max() - v.min())
        ctx.require(d == 2 or got <= v.min() + 1e-3 * span + 1e-9, lambda: "criterion %g at the queried point, %g on a grid" % (got, v.min()))
        ctx.state((name, kind, d, box))
    return fn


class Lattice:
    """a search over a lattice of the space it is given"""

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        P = lattice(design_space, 23)
        v = np.ravel(func(P.copy(), *k.get("args", ())))
        i = int(np.argmin(v))
        return {"best_x": P[i].copy(), "best_y": v[i]}, v[i], P[i].copy()


def many(n):
    """many queries of one criterion object, each against an object of its own"""
    def fn(ctx):
        name, kind, d = pick(ctx)
        sets = [surrogates(name, kind, d, b) for b in ("wide", "neg", "unit")]
        a = make(name, Lattice())
        order = ctx.choose("order", [(1, 0), (2, 1), (3, 0)])
        for i in range(n):
            ms, c = sets[(order[0] * i + order[1]) % 3]
            cr, fmin = (1.0, 4.0, 0.5, 9.0)[i % 4], float(np.min(c.yh)) + 0.1 * (i % 5) * float(np.std(c.yh))
            got, want = query(name, a, ms, cr, fmin), query(name, make(name, Lattice()), ms, cr, fmin)
            ctx.op("query", 2)
            if name not in SURE:
                ctx.require(int(got[1]) == int(want[1]), lambda: "query %d of one object: fidelity %r, of a new object %r" % (i, got[1], want[1]))
                got, want = got[0], want[0]
            ctx.same(np.ravel(got), np.ravel(want), "query %d of one object" % i)
        ctx.state((name, kind, d, order))
    return fn


def scenarios(tier):
    big = tier == "thorough"
    return [("searched", searched), ("many", many(100 if big else 30)), ("ranked", ranked),
            ("large", lambda ctx: searched(ctx, (3, 6, 10) if big else (9,), (8, 20, 25), (5,))),
            ("real", real([1, 2] if big else [1], ["wide", "neg"] if big else ["wide"]))]
