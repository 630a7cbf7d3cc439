"""The hyper-parameter searches of the models, with a scripted search."""
import itertools

import numpy as np
from scipy.optimize import OptimizeResult

from mc import env, mod, ref
from mfpml.models.kernels import RBF

BOUNDS = ("4 model kinds x 1-2 variables x 2-3 responses x noise 0, small, known, estimated x "
          "3 kernel bounds x 3 trends (single fidelity): likelihood at 6 "
          "parameter vectors in every batch, answers in and beyond the bounds, against the reference; all sequences "
          "of results of 1-4 restarts over 3 candidates at each fidelity; the best "
          "of 7-13 restarts at every position; likelihoods of 9-24 samples in 3-12 variables; 8 "
          "real runs of L-BFGS-B per model")
ASSUMPTIONS = ["the likelihood is compared up to an additive constant",
               "a scripted restart answers with a point of the bounds and the "
               "true objective value there"]
NOISE_ROW = [1e-5, 10.0]


def lattice(b, k):
    """k parameter vectors of the box b, deterministic, moderately conditioned"""
    b = np.array(b, float)
    d = len(b)
    t = np.mod(0.29 + np.outer(np.arange(k), 0.618 + 0.11 * np.arange(d)), 1.0)
    P = np.empty((k, d))
    for i in range(d):
        lo, hi = b[i]
        if lo > 0:                      # noise or scale factor
            lo, hi = max(lo, 0.02), min(hi, 2.5)
        else:
            lo, hi = max(lo, 0.2), min(hi, 2.2)
        P[:, i] = lo + t[:, i] * (hi - lo)
    return P


class Probe:
    """optimiser that evaluates its objective at a lattice, singly and batched"""

    def __init__(self, ctx, pick, beyond=False):
        self.ctx, self.pick, self.beyond, self.calls = ctx, pick, beyond, []

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        b = np.array(design_space, float)
        self.ctx.require(b.shape == (num_dim, 2), lambda: "search over %d parameters in a box of shape %s" % (num_dim, b.shape))
        P = lattice(b, 6)
        keep = P.copy()
        one = []
        for p in P:
            v = np.asarray(func(p.copy()))
            self.ctx.require(v.size == 1, "one parameter vector got %d likelihoods" % v.size)
            one.append(float(v.ravel()[0]))
            w = np.asarray(func(p.reshape(1, -1)))
            self.ctx.require(w.size == 1 and abs(float(w.ravel()[0]) - one[-1]) <= 1e-9 * (1 + abs(one[-1])),
                             "a row of parameters and a vector of parameters get different likelihoods")
        one = np.array(one)
        for n in (2, 3, 6):
            v = np.asarray(func(P[:n])).ravel()
            self.ctx.close(v, one[:n], "likelihood of a batch of %d" % n, 1e-9, 1e-9)
        v = np.asarray(func(P[::-1])).ravel()
        self.ctx.close(v, one[::-1], "likelihood of the reversed batch", 1e-9, 1e-9)
        self.ctx.same(P, keep, "the objective changed its argument")
        self.ctx.op("objective", 16)
        x = P[self.pick].copy()
        if self.beyond:         # its answer is taken as it is
            x = np.where(b[:, 0] > 0, x, b[:, 1] + 0.05)
        self.calls.append(dict(num_dim=num_dim, bounds=b, P=keep, v=one, x=x))
        return {"best_x": x.copy(), "best_y": one[self.pick:self.pick + 1]}, one[self.pick], x.copy()

    def plot_optimization_history(self, *a, **k):
        pass


KB = {"default": None, "narrow": [-1.0, 2.0], "wide": [-3.5, 2.5]}
DEFAULT = dict(gp=[-2, 3], hk=[-2.0, 3.0], sk=[-4.0, 3.0], ck=[-2.0, 3.0])


def searches(kind, d, kb, noise):
    """the bounds of the searches of one training, in order"""
    extra = [NOISE_ROW] if noise is None else []
    hf = [list(kb if kb is not None else DEFAULT[kind])] * d
    if kind == "gp":
        return [hf + extra]
    low = [[-2.0, 3.0]] * d + extra
    if kind == "ck":
        return [low, [[1e-2, 1e2]] + extra + hf]
    return [low, hf + extra]


def build(c, kb, optimizer, **kw):
    if c.kind == "gp":
        if kb is not None:
            kw["kernel"] = RBF(theta=np.zeros(c.d), bounds=kb)
    elif kb is not None:
        kw["kernel_bound"] = list(kb)
    return c.build(optimizer=optimizer, **kw)


def reference(c, m, i, p):
    """(reference nll, condition) of search i at p; m has been trained"""
    conc = c.noise == 0.0
    p = np.array(p, float)
    rho = None
    if c.kind == "ck" and i == 1:
        rho, p = p[0], p[1:]
        if c.noise is None:
            noise, th = p[0], p[1:]
    elif c.noise is None:
        noise, th = p[-1], p[:-1]
    if c.noise is not None:
        noise, th = None, p
    if c.kind == "gp" or (i == 0 and c.kind != "ck"):
        X, y = (c.Xh, c.yh) if c.kind == "gp" else (c.Xl, c.yl)
        s = np.std(y)
        k = ref.gp(X, y, c.box, th, c.trend, noise * s if noise is not None else c.noise)
    elif c.kind == "ck":
        mh, s = np.mean(c.yh), np.std(c.yh)
        one = lambda U: np.ones((len(U), 1))
        lv = noise * s if noise is not None else c.noise
        if i == 0:
            k = ref.Krige(ref.unit(c.Xl, c.box), c.yl, th, one, lv, mh, s)
        else:
            y = (c.yh.ravel() - mh) / s - rho * (m.predict_lf(c.Xh).ravel() - mh) / s
            k = ref.Krige(ref.unit(c.Xh, c.box), y, th, one, lv / s, 0.0, 1.0)
    elif c.kind == "hk":
        mh, s = np.mean(c.yh), np.std(c.yh)
        F = (m.predict_lf(c.Xh) - mh) / s
        k = ref.Krige(ref.unit(c.Xh, c.box), c.yh, th, lambda U: F,
                      noise * s if noise is not None else c.noise)
    else:
        y = c.yh - m.predict_lf(c.Xh)
        k = ref.gp(c.Xh, y, c.box, th, "ordinary", noise * np.std(y) if noise is not None else c.noise)
    return k.nll(conc), k.cond


def carried(ctx, c, m, i, x, what):
    """the model carries the parameters x of search i"""
    x = np.array(x, float)
    if c.kind == "ck" and i == 1:
        ctx.close(np.ravel(m.rho), x[:1], "%s: scale factor" % what, 1e-12, 0)
        if c.noise is None:
            ctx.close(np.ravel(m.noise), x[1:2], "%s: noise" % what, 1e-9, 1e-12)
        x = x[2:] if c.noise is None else x[1:]
        kern = m.kernel
    else:
        g = m if c.kind == "gp" else m.lfGP if i == 0 else m.disc_model if c.kind == "sk" else m
        kern = g.kernel
        if c.noise is None:
            unitl = 1.0 if c.kind == "ck" else np.std(
                c.yh if c.kind == "gp" else c.yl if i == 0 else
                c.yh - m.predict_lf(c.Xh) if c.kind == "sk" else c.yh)
            ctx.close(np.ravel(g.noise), x[-1:] * unitl, "%s: noise" % what, 1e-9, 1e-12)
            x = x[:-1]
    ctx.close(np.ravel(kern._get_param), 10.0 ** x, "%s: kernel parameters" % what, 1e-12, 0)


def objective(ctx, dims=(1, 2), nh=4, nl=7):
    kind = ctx.choose("model", mod.KINDS)
    d = ctx.choose("variables", list(dims))
    noise = ctx.choose("noise", [0.0, 0.2, None, 1e-4])
    fam = ctx.choose("response", ["wave", "small", "big"])
    kb = KB[ctx.choose("kernel bounds", list(KB))]
    trend = ctx.choose("trend", list(mod.TREND)) if kind == "gp" and d == 1 else "ordinary"
    pick = ctx.choose("answer", [0, 3] + ["beyond the bounds"] * (d < 3))
    c = mod.Case(kind, d, nh=nh, nl=nl, fam=fam, noise=noise, trend=trend, nested=False)
    if noise:
        c.noise = noise * float(np.std(c.yh))
    o = Probe(ctx, *((1, True) if pick == "beyond the bounds" else (pick,)))
    rb = ctx.choose("scale factor bounds", [None, [0.2, 4.0], [-2.0, -0.5], [12.0, 30.0]]) if kind == "ck" else None
    m = build(c, kb, o, **({} if rb is None else dict(rho_bound=list(rb))))
    c.train(m)
    ctx.op("train")
    want = searches(kind, d, kb, noise)
    if rb is not None:
        want[1][0] = rb
    ctx.require(len(o.calls) == len(want), lambda: "%d searches, expected %d" % (len(o.calls), len(want)))
    for i, (q, b) in enumerate(zip(o.calls, want)):
        ctx.close(q["bounds"], b, "bounds of search %d" % i, 1e-12, 1e-15)
        r = [reference(c, m, i, p) for p in q["P"]]
        r0 = r[0][0]
        for j in range(1, len(r)):
            cond = max(r[0][1], r[j][1])
            if cond > 1e9:
                continue
            ctx.close(q["v"][j] - q["v"][0], r[j][0] - r0,
                      "search %d: likelihood difference between %s and %s" % (i, q["P"][j].tolist(), q["P"][0].tolist()),
                      1e-6 + 1e-14 * cond, 1e-6 + 1e-14 * cond * (1 + abs(r0)))
            ctx.state((kind, d, noise, fam, str(kb), trend, i, j))
        carried(ctx, c, m, i, q["x"], "after search %d" % i)
    ctx.outcome(tuple(q["v"][1] - q["v"][0] for q in o.calls))


class Restarts:
    """stands for scipy's minimize: answers each call with a candidate"""

    def __init__(self, ctx, seqs, bounds):
        self.ctx, self.seqs, self.bounds = ctx, seqs, bounds
        self.done = []                      # (search, x, value)

    def __call__(self, fun, x0=None, *a, **k):
        n = len(self.done)
        i, left = 0, n
        while i < len(self.seqs) and left >= len(self.seqs[i]):
            left -= len(self.seqs[i])
            i += 1
        self.ctx.require(i < len(self.seqs), lambda: "more than %s restarts" % [len(s) for s in self.seqs])
        b = env._bounds_array(k["bounds"])
        self.ctx.close(b, self.bounds[i], "bounds of search %d" % i, 1e-12, 1e-15)
        x0 = np.ravel(np.array(x0, float))
        self.ctx.require(len(x0) == len(b) and np.all(x0 >= b[:, 0] - 1e-12) and np.all(x0 <= b[:, 1] + 1e-12),
                         lambda: "restart of search %d starts at %s outside %s" % (i, x0.tolist(), b.tolist()))
        x = lattice(b, 3)[self.seqs[i][left]]
        good = (left + len(self.seqs[i]) + i) % 3 > 0    # a search that gave up may still be the best
        v = float(np.ravel(fun(x.copy(), *k.get("args", ())))[0])
        self.done.append((i, x.copy(), v))
        return OptimizeResult(x=x.copy(), fun=v, success=good, status=0 if good else 2)


def sequences(n):
    """results of n restarts, as indices of candidates: the best one (of each
    index) at every position, and two mixed ones"""
    out = [tuple(b if j == i else a for j in range(n)) for i in range(n) for a in range(3) for b in range(3) if a != b]
    return out + [tuple((i * i + 1) % 3 for i in range(n)), tuple((2 * i + i // 3) % 3 for i in range(n))]


def restarts(counts, dims=(1, 2), size=(4, 6), seqs_of=None):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        noise = ctx.choose("noise", [0.0, None])
        extra = ctx.choose("restarts", counts)
        kb = KB[ctx.choose("kernel bounds", ["default", "narrow"])]
        d = ctx.choose("variables", list(dims))
        seqs = (seqs_of or (lambda n: list(itertools.product(range(3), repeat=n))))(extra + 1)
        c = mod.Case(kind, d, nh=size[0], nl=size[1], noise=noise)
        w = searches(kind, d, kb, noise)
        s = ctx.choose("results", seqs)
        if len(w) == 2:
            s2 = seqs[(seqs.index(s) * 7 + 5) % len(seqs)]
            plan = [s2, s] if extra > 1 else [s, ctx.choose("results of the second search", seqs)]
        else:
            plan = [s]
        h = Restarts(ctx, plan, w)
        m = build(c, kb, None, optimizer_restart=extra)
        with env.scripted_minimize(h):
            c.train(m)
        ctx.op("train")
        ctx.require(len(h.done) == len(w) * (extra + 1), lambda: "%d restarts instead of %d" % (len(h.done), len(w) * (extra + 1)))
        for i in range(len(w)):
            rs = [(v, x) for j, x, v in h.done if j == i]
            best = min(v for v, _ in rs)
            xs = [x for v, x in rs if v == best]
            carried(ctx, c, m, i, xs[0], "search %d with results %s" % (i, [v for v, _ in rs]))
        ctx.state((kind, noise, extra, str(kb), d, tuple(plan)))
        ctx.outcome(tuple(v for _, _, v in h.done))
    return fn


def real(ctx):
    """the built-in search as it is, L-BFGS-B included"""
    kind = ctx.choose("model", mod.KINDS)
    noise = ctx.choose("noise", [0.0, None])
    n = ctx.choose("restarts", [0, 2])
    seed = ctx.choose("random generator", [1, 2])
    c = mod.Case(kind, 1, nh=5, nl=7, noise=noise, fam="kink", nested=False)
    runs = []

    def handler(fun, x0=None, *a, **k):
        r = env._real_minimize(fun, x0, *a, **k)
        runs.append((env._bounds_array(k["bounds"]), np.ravel(r.x).copy(), float(np.ravel(r.fun)[0]),
                     float(np.ravel(fun(np.ravel(x0)))[0])))
        return r
    np.random.seed(seed)
    m = c.build(optimizer=None, optimizer_restart=n)
    with env.scripted_minimize(handler):
        c.train(m)
    ctx.op("train")
    w = searches(kind, 1, None, noise)
    ctx.require(len(runs) == len(w) * (n + 1), lambda: "%d restarts instead of %d" % (len(runs), len(w) * (n + 1)))
    for i, b in enumerate(w):
        part = runs[i * (n + 1):(i + 1) * (n + 1)]
        best = min(r[2] for r in part)
        x = [r[1] for r in part if r[2] == best][0]
        b = np.array(b)
        ctx.require(np.all(x >= b[:, 0] - 1e-9) and np.all(x <= b[:, 1] + 1e-9), lambda: "parameters %s outside %s" % (x, b.tolist()))
        carried(ctx, c, m, i, x, "search %d" % i)
        for r in part:
            ctx.require(best <= r[3] + 1e-9, "the search ends worse than it starts")
    ctx.state((kind, noise, n, seed))


def scenarios(tier):
    big = tier == "thorough"
    return [("objective", objective), ("restarts", restarts([0, 1, 2, 3] if big else [0, 1, 2])),
            ("large objective", lambda ctx: objective(ctx, (3, 4, 6, 7, 12) if big else (4, 10), 9, 24)),
            ("many restarts", restarts([6, 9, 12] if big else [6, 10], (1, 3), (5, 12), sequences)),
            ("real", real)]
