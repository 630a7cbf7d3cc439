"""Only the numbers count: storage, type and sharing of the arrays exchanged
with models, criteria, samplers, optimizers and loops."""
import contextlib
import io

import numpy as np

from mc import acq, bo, doe, ea, env, mod
from mc.checks import C26

BOUNDS = ("models: 4 kinds x 3 noises x every pair of a form of the samples (7), the responses (7), the design space (4), the "
          "noise (2) and the queries (8), up to 2 (3 in thorough) of them other than plain float arrays; criteria x 7 forms of the points; "
          "samplers x forms of counts, seeds and boxes; PSO and DE (4 settings) and the Bayesian loops (5 kinds) x 8-9 ways the functions "
          "hand out their values (same array every time, view of a table, read-only, integers, 32-bit, flat, Fortran order), keeping the "
          "points they are given or not, x 4 ways the criterion hands out its proposals, x 3-4 sizes, with and without early stop")
ASSUMPTIONS = ["the numbers are representable in every form", "forms are those the library accepts: arrays "
               "of any numeric type and layout, flat responses except for co-kriging, lists for samplers, single points for predictions"]


def form(a, how):
    a = np.array(a, float)
    if how == "plain":
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "read-only":
        a.setflags(write=False)
        return a
    if how == "view":
        w = np.full((a.shape[0] * 2, a.shape[1] + 2), 3.3)
        w[::2, 1:-1] = a
        return w[::2, 1:-1]
    if how == "backwards":
        return a[::-1].copy()[::-1]
    if how == "int":
        return a.astype(int)
    if how == "float32":
        return a.astype(np.float32)
    if how == "flat":
        return a.ravel()
    if how == "list":               # only the samplers take lists
        return a.tolist()
    raise ValueError(how)


ARR = ["plain", "fortran", "read-only", "view", "backwards", "int", "float32"]
BASE = dict(samples="plain", responses="plain", space="plain", noise="plain", queries="plain")
OTHER = dict(samples=ARR[1:], responses=ARR[1:] + ["flat"], space=["fortran", "int", "float32", "read-only"],
             noise=["numpy", "int"], queries=ARR[1:] + ["one by one", "vectors"])


def plans(most):
    """what is given in another form, at most `most` arguments at once"""
    out = [dict(BASE)]
    todo = [(dict(BASE), 0)]
    keys = list(BASE)
    while todo:
        p, i = todo.pop()
        for k in range(i, len(keys)):
            for v in OTHER[keys[k]]:
                q = dict(p)
                q[keys[k]] = v
                if sum(q[x] != BASE[x] for x in keys) <= most:
                    out.append(q)
                    todo.append((q, k + 1))
    return out


def lattice(d, n, k):
    """n distinct whole-numbered points of [-8, 8]^d"""
    P = np.round(mod.points(d, 4 * n, [[-8, 8]] * d, k))
    seen, out = set(), []
    for p in P:
        if tuple(p) not in seen:
            seen.add(tuple(p))
            out.append(p)
    return np.array(out[:n])


def models(most, dims):
    P = plans(most)

    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        d = ctx.choose("variables", dims)
        prior = ctx.choose("noise", [0, 2, None])
        plan = ctx.choose("forms", P)
        box = np.array([[-8.0, 8.0]] * d)
        n = 5 if d == 1 else 9
        Xl = lattice(d, n, 0)
        Xh = Xl[1:-1:2] if d > 1 else Xl[:3]
        f = lambda X: np.round(X[:, :1] ** 2 / 2 - 3 * X[:, -1:] + 4 * np.sin(X[:, :1]))
        yl, yh = np.round(0.6 * f(Xl) + Xl[:, :1]), f(Xh)
        Q = np.vstack([lattice(d, 6, 40), Xh[:1]])
        if (plan["responses"] == "flat" and kind == "ck") or (prior is None and plan["noise"] != "plain"):
            ctx.outcome("not offered")
            return

        def build(p):
            ns = prior
            if prior is not None and p["noise"] != "int":
                ns = dict(plain=float, numpy=np.float64)[p["noise"]](float(prior))
            c = mod.Case(kind, d)
            m = c.build(design_space=form(box, p["space"]), noise_prior=ns)
            if kind == "gp":
                m.train(form(Xl, p["samples"]), form(yl, p["responses"]))
            else:
                m.train([form(Xh, p["samples"]), form(Xl, p["samples"])],
                        [form(yh, p["responses"]), form(yl, p["responses"])])
            ctx.op("train")
            return m

        def ask(m, lf, std):
            g = m.predict_lf if lf else m.predict
            q = plan["queries"]
            parts = [Q]
            if q in ("one by one", "vectors"):
                parts = [x if q == "vectors" else x.reshape(1, -1) for x in Q]
            else:
                parts = [form(Q, q)]
            outs = [g(x, return_std=True) if std else (g(x),) for x in parts]
            ctx.op("predict", len(parts))
            for o in outs:
                for a in o:
                    ctx.require(np.asarray(a).dtype == np.float64, lambda: "a prediction is of type %s" % np.asarray(a).dtype)
            return [np.vstack([o[i] for o in outs]) for i in range(len(outs[0]))]
        m, b = build(plan), build(BASE)
        sp = float(np.std(yl)) + float(np.std(yh))
        # arithmetic in 32 bits costs accuracy, nothing else
        tol = 1e-4 if "float32" in plan.values() else 1e-7
        for lf in ([False, True] if kind != "gp" else [False]):
            g = b.predict_lf if lf else b.predict
            mean, sd = g(Q.copy(), return_std=True)
            t, u = ask(m, lf, True), ask(m, lf, False)
            w = "low-fidelity " if lf else ""
            ctx.close(t[0], mean, w + "mean with %s" % plan, tol, tol * sp)
            ctx.close(u[0], mean, w + "mean without std with %s" % plan, tol, tol * sp)
            ctx.close(t[1] ** 2, sd ** 2, w + "variance with %s" % plan, 10 * tol, tol * sp ** 2)
        ctx.state((kind, d, prior, tuple(plan.values())))
        ctx.outcome(mean)
    return fn


def criteria(ctx):
    name = ctx.choose("criterion", list(acq.SF) + ["CEI"] + list(acq.MF))
    single = name in acq.SF or name == "CEI"
    kind = "gp" if single else ctx.choose("model", C26.ALLOWED[name])
    d = ctx.choose("variables", [1, 3])
    q = ctx.choose("points", ARR[1:] + ["vectors"])
    fid = 0 if single else ctx.choose("fidelity", [0, 1])
    c = mod.Case(kind, d, nh=4, nl=7, box="int", noise=0.5)
    m = c.train(c.build())
    Q = np.unique(np.round(mod.points(d, 12, c.box, 30)), axis=0)
    if name == "CEI":
        f = lambda x: acq.SCA.CEI().eval(x, m, [m, m])
    elif single:
        f = lambda x: acq.SF[name]().eval(x, m)
    else:
        f = lambda x: C26.call(acq.MF[name](), name, x, m, 2.0, 0.2, fid)
    want = np.ravel(f(Q.copy()))
    parts = list(Q) if q == "vectors" else [form(Q, q)]
    got = np.concatenate([np.ravel(f(p)) for p in parts])
    ctx.op("eval", len(parts))
    ctx.require(got.dtype == np.float64, lambda: "%s is of type %s" % (name, got.dtype))
    ctx.close(got, want, "%s of points given as %s" % (name, q), 1e-6, 1e-6 * (1e-9 + float(np.max(np.abs(want)))))
    ctx.state((name, kind, d, q, fid))
    ctx.outcome(want)


def samplers(ctx):
    """counts, seeds and boxes in every accepted form"""
    kind = ctx.choose("sampler", ["lhs", "random", "sobol", "mf lhs", "mf sobol"])
    box = np.array(ctx.choose("box", [[[-5.0, 10.0], [0.0, 15.0]], [[-3.0, 7.0]], [[0.0, 1.0]] * 5]))
    how = ctx.choose("space", ["plain", "fortran", "int", "float32", "read-only", "list", "mixed list"])
    cnt = ctx.choose("counts", ["int", "int64", "int32"])
    seed = ctx.choose("seed", [3, 77])
    sform = ctx.choose("form of the seed", [int, np.int64])
    nested = ctx.choose("nested", [False, True]) if kind.startswith("mf") else False
    conv = dict(int=int, int64=np.int64, int32=np.int32)[cnt]
    if not kind.startswith("mf"):
        sp = form(box, "list" if how == "mixed list" else how)
        want = doe.SF[kind](box.copy()).get_samples(6, seed=seed)
        got = doe.SF[kind](sp).get_samples(conv(6), seed=sform(seed))
        ctx.op("get_samples", 2)
        ctx.same(np.asarray(got), np.asarray(want), "samples")
    else:
        cls = doe.MF[kind[3:]]
        if how == "list":           # one array per fidelity
            sp = [box.copy(), box.copy()]
        elif how == "mixed list":
            sp = [form(box, "int"), form(box, "fortran")]
        else:
            sp = form(box, how)
        n = [conv(3), conv(7)]
        # (the default of num_skip is only promised for a single design space)
        base = [box.copy(), box.copy()] if isinstance(sp, list) else box.copy()
        want = cls(base, num_fidelity=2, nested=nested).get_samples([3, 7], seed=seed)
        got = cls(sp, num_fidelity=2, nested=nested).get_samples(n, seed=sform(seed))
        ctx.op("get_samples", 2)
        for a, b in zip(got, want):
            ctx.same(np.asarray(a), np.asarray(b), "samples")
    ctx.state((kind, box, how, cnt, seed, sform.__name__, nested))
    ctx.outcome(np.asarray(got[0]))


class Giver:
    """a function that hands out its values in some way, and may keep what it
    was given"""

    def __init__(self, fn, how, keep):
        self.fn, self.how, self.keep = fn, how, keep
        self.buffer = np.full((4000, 1), 9.5)
        self.used = 0
        self.table = []                 # (array handed out, its values)
        self.given = []                 # (array given, its values)

    def __call__(self, X):
        if self.keep:
            self.given.append((X, np.array(X)))
        y = np.round(self.fn(np.array(X, float))).reshape(-1, 1)
        n = len(y)
        if self.how == "same array":
            o = self.buffer[:n]
            o[:] = y
            return o
        if self.how == "table":
            o = self.buffer[self.used:self.used + n]
            o[:] = y
            self.used += n
            self.table.append((o, y.copy()))
            return o
        if self.how == "read-only":
            y.setflags(write=False)
            return y
        if self.how == "first int":     # whole numbers first, then floats
            self.used += 1
            return y.astype(int) if self.used == 1 else y
        return form(y, self.how)

    def intact(self, ctx, what):
        for o, y in self.table:
            ctx.same(o, y, "%s changed values the function keeps" % what)
        for x, v in self.given:
            ctx.same(x, v, "%s changed points given to the function" % what)


def objective(X):
    return 3 * np.sum((X - 1.3) ** 2, axis=1) + 5 * np.cos(X[:, 0])


def evolution(sizes):
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        d, pop, gen = ctx.choose("variables, population, generations", sizes)
        how = ctx.choose("values", ["plain", "same array", "table", "read-only", "int", "float32", "flat", "first int", "fortran"])
        keep = ctx.choose("keeps the points", [False, True])
        space = ctx.choose("space", ["plain", "int", "fortran", "read-only"])
        stop = ctx.choose("target", [None, 9.0])
        seed = ctx.choose("random generator", [0, 4])
        box = np.array([[-5.0, 10.0], [0.0, 15.0], [-3.0, -1.0], [2.0, 64.0]][:d])

        def go(f, b):
            np.random.seed(seed)
            r = ea.ALGOS[algo](pop, gen).run_optimizer(f, d, b, stopping_error=stop)
            ctx.op("run")
            return r
        want = go(lambda X: np.round(objective(np.array(X))).reshape(-1, 1), box.copy())
        g = Giver(objective, how, keep)
        got = go(g, form(box, space))
        ctx.same(np.ravel(np.asarray(got[1], float)), np.ravel(want[1]), "best value")
        ctx.same(np.asarray(got[2]), np.asarray(want[2]), "best point")
        for k in want[0]:
            if k != "design_space":
                ctx.same(np.asarray(got[0][k], float), np.asarray(want[0][k], float), "results: %s" % k)
        g.intact(ctx, "the optimizer")
        ctx.state((algo, d, pop, gen, how, keep, space, stop, seed))
        ctx.outcome((algo, want[2]))
    return fn


def handing(acq, form):
    """the acquisition hands out its proposals in one array it keeps, or in
    arrays that must not be written to"""
    query, buffer = acq.query, np.full((1, 2), 3.5)

    def ask(*a, **k):
        r = query(*a, **k)
        x = r[0] if isinstance(r, tuple) else r
        if form == "same array":
            buffer[:] = x
            x = buffer
        elif form == "read-only":
            x.setflags(write=False)
        return (x, r[1]) if isinstance(r, tuple) else x
    acq.query = ask
    return acq


def loops(iters):
    def fn(ctx):
        kind = ctx.choose("loop", ["unconstrained", "constrained", "HierarchicalKriging", "ScaledKriging", "CoKriging"])
        how = ctx.choose("values", ["plain", "same array", "table", "read-only", "int", "float32", "first int", "fortran"])
        domain = ctx.choose("domain", ["plain", "int", "float32", "read-only"])
        pf = ctx.choose("proposals", ["row", "vector", "read-only", "same array"])
        keep = ctx.choose("keeps the points", [False, True] if pf != "same array" else [False])
        n = ctx.choose("iterations", iters)
        d = 2

        def go(how, keep, domain, pf):
            gs = [Giver(objective, how, keep), Giver(lambda X: 2 * objective(X) - X[:, 1], how, keep)]
            P = bo.proposals(d, n, "vector" if pf == "vector" else "row", "int")
            if n:       # the first proposal is an improvement
                P[0][...] = [2.0, 1.25]
            hand = lambda acq: handing(acq, pf)
            if kind == "unconstrained":
                prob = bo.Problem(d, None, obj=gs[0], box="int")
            elif kind == "constrained":
                prob = bo.Problem(d, None, obj=gs[0], box="int")
                gs.append(Giver(lambda X: X[:, 0] * 3 - X[:, 1], how, keep))
                prob.num_cons, prob.f_cons = 1, gs[2]
            else:
                prob = bo.Problem(d, None, hf=gs[0], lf=gs[1], box="int")
                prob.__class__ = Plain
            prob.input_domain = form(prob.input_domain, domain)
            with bo.quick(), contextlib.redirect_stdout(io.StringIO()):
                if kind == "unconstrained":
                    o = bo.UBO(prob, hand(bo.Unc(P)), num_init=4, seed=3)
                    o.run_optimizer(max_iter=n)
                    rec = [o.sample, o.response, o.init_sample, o.init_response]
                    sur = [o.surrogate]
                elif kind == "constrained":
                    o = bo.CBO(prob, hand(bo.Con(P)), num_init=4, seed=3)
                    o.run_optimizer(max_iter=n)
                    rec = [o.sample, o.obj_response, o.cons_response, o.init_sample, o.init_obj_response, o.init_cons_response]
                    sur = [o.obj_surrogate] + list(o.cons_surrogates)
                else:
                    o = bo.MFBO(prob, hand(bo.Mul(P, [i % 2 for i in range(n)])), num_init=[4, 6], surrogate_name=kind, seed=8)
                    o.run_optimizer(max_iter=n)
                    rec = list(o.sample) + list(o.response) + list(o.init_sample) + list(o.init_response)
                    sur = [o.surrogate]
            ctx.op("run %d" % n)
            X = mod.points(d, 3, prob.input_domain, 500)
            out = [np.array(a, float) for a in rec] + [np.array(a, float) for s in sur for a in s.predict(X, return_std=True)]
            return out + [np.array([float(v) for v in o.history_best]), np.array([np.ravel(v if v is not None else np.full(d, np.nan)) for v in o.history_best_x], float), np.array([float(o.best)]), np.array(o.best_x, float)], gs
        want, _ = go("plain", False, "plain", "row")
        got, gs = go(how, keep, domain, pf)
        tol = 1e-4 if "float32" in (how, domain) else 1e-8
        for i, (a, b) in enumerate(zip(got, want)):
            ctx.close(a.reshape(b.shape), b, "record %d of the %s loop" % (i, kind), tol, tol)
        for g in gs:
            g.intact(ctx, "the loop")
        ctx.state((kind, how, keep, domain, pf, n))
        ctx.outcome((kind, want[-2]))
    return fn


class Plain(bo.Problem):
    """hands the points to the functions as they are"""

    def __call__(self, X):
        return [self.hf(X[0]), self.lf(X[1])]


def scenarios(tier):
    big = tier == "thorough"
    return [("models", models(3 if big else 2, [1, 2, 4] if big else [2])), ("criteria", criteria), ("samplers", samplers),
            ("evolution", evolution([(1, 4, 3), (2, 6, 5), (4, 25, 20)] if big else [(2, 6, 5), (4, 15, 12)])),
            ("loops", loops([0, 1, 2, 4] if big else [1, 3]))]
