"""The library's own swarm and evolution objects as the optimizers of models, of
factor searches and of criteria. Every search they are given is recorded: its answer
must lie in the search's bounds and be the least of everything evaluated, whatever
else the object was or is used for, and the model or query must be what that answer
makes of it, as a scripted optimizer that gives the same answer shows."""
import numpy as np

from mc import acq, bo, ea, env, mod
from mc.checks import C26, C33

BOUNDS = ("4 settings of the two algorithms x 4 model kinds x 1-2 variables x 2 responses x 3 noise settings x hyper-parameter and factor searches "
          "(2 methods) x a new object, one with a history, one shared by 2 models, one shared by the 2 searches; 8 criteria x their models x 1-2 "
          "variables x new and shared objects x sequences of 3 queries; 3 loops, and 2 loops taking turns with one object, 3 iterations each; populations "
          "of 6-10, 3-8 generations")
ASSUMPTIONS = ["the object is not in use by a search while another begins (a factor search by bumpiness trains a model at every evaluation: it needs an "
               "object of its own)", "surrogates of criteria have hyper-parameters in the middle of their bounds"]


class Watched:
    """one real optimizer object that keeps a record of its searches"""

    def __init__(self, algo, pop=6, gen=4):
        self.real, self.log = ea.ALGOS[algo](pop, gen), []

    def __call__(self, ctx, tag=""):
        return Port(ctx, self, tag)


class Port:
    """what a model or criterion is given; several ports may lead to one object"""

    def __init__(self, ctx, shared, tag):
        self.ctx, self.shared, self.tag = ctx, shared, tag
        self.answers = []
        self.repeat = True                  # the objective is a function of the point

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        X, Y = [], []

        def f(x, *b):
            x = np.array(x, float, copy=True)
            y = np.array(np.ravel(func(x.copy(), *b)), float)
            self.ctx.require(x.ndim == 2 and x.shape[1] == num_dim and len(y) == len(x),
                             lambda: "%s: %d values for a population of shape %s" % (self.tag, len(y), x.shape))
            if self.repeat:
                one = np.array([float(np.ravel(func(r.copy().reshape(1, -1), *b))[0]) for r in x])
                self.ctx.require(np.all((y == one) | (np.abs(y - one) <= 1e-6 * (1 + np.abs(one)))),
                                 lambda: "%s: values of a population %s, of its members %s" % (self.tag, y.tolist(), one.tolist()))
            X.append(x)
            Y.append(y.copy())
            return y.reshape(-1, 1)
        box = np.array(design_space, float, copy=True)
        out = self.shared.real.run_optimizer(f, num_dim, design_space, *a, **k)
        P, v = np.vstack(X), np.concatenate(Y)
        res, y, x = out
        x = np.array(np.ravel(x), float)
        self.ctx.same(np.array(design_space, float), box, self.tag + ": bounds of the search")
        self.ctx.require(np.all(np.isfinite(v)), lambda: "%s: the objective is not finite: %s" % (self.tag, v.tolist()))
        self.ctx.require(ea.inside(P, box), lambda: self.tag + ": a point outside the bounds of the search is evaluated")
        at = [i for i in range(len(P)) if np.array_equal(P[i], x)]
        self.ctx.require(any(v[i] == v.min() for i in at) and float(np.ravel(y)[0]) == v.min(),
                         lambda: "%s: answer %s with %r, the least value evaluated is %r" % (self.tag, x, y, v.min()))
        self.ctx.same(np.ravel(res["best_x"]), x, self.tag + ": best_x")
        self.answers.append((num_dim, x.copy(), float(v.min()), box))
        self.shared.log.append(self.answers[-1])
        self.ctx.op("search")
        return out

    def plot_optimization_history(self, *a, **k):
        return self.shared.real.plot_optimization_history(*a, **k)


def busy(shared):
    """searches of other shapes before the one of interest"""
    for d, pull in ((3, 4.0), (1, -1.0)):
        shared.real.run_optimizer(lambda x: np.sum((x - pull) ** 2, axis=1), d, np.array([[-9.0, 9.0]] * d))


def seen(m, case):
    Q = mod.queries(case.d, case.box, case.Xh)
    out = [np.asarray(v, float) for v in m.predict(Q.copy(), return_std=True)]
    if case.mf:
        out += [np.asarray(v, float) for v in m.predict_lf(Q.copy(), return_std=True)]
    return out


def alike(ctx, a, b, what, tol=0.0):
    for u, v, n in zip(a, b, ("mean", "std", "low-fidelity mean", "low-fidelity std")):
        ctx.require(np.all(np.isfinite(u)), lambda: "%s: %s is not finite" % (what, n))
        ctx.close(u, v, "%s: %s" % (what, n), 0, tol * (float(np.max(np.abs(v))) + 1e-12))


class Replay:
    """answers of a recorded port in their order"""

    def __init__(self, port, ends=False):
        self.left = list(port.answers)
        if ends:                            # those in force: of the low fidelity and the last
            self.left = [self.left[0], self.left[-1]]

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        d, x, v, box = self.left.pop(0)
        assert d == num_dim, (d, num_dim)
        return {"best_x": x.copy(), "best_y": np.array([v])}, v, x.copy()

    def plot_optimization_history(self, *a, **k):
        pass


def train(case, **kw):
    m = case.build(**kw)
    if case.mf:
        m.train([case.Xh.copy(), case.Xl.copy()], [case.yh.copy(), case.yl.copy()])
    else:
        m.train(case.Xh.copy(), case.yh.copy())
    return m


def models(kinds, algos, dims, fams, noises, sizes, methods):
    def fn(ctx):
        kind = ctx.choose("model", kinds)
        role = ctx.choose("role", ["parameters", "factor", "both"] if kind == "sk" else ["parameters"])
        method = ctx.choose("factor by", methods) if role != "parameters" else "error"
        algo = ctx.choose("algorithm", algos)
        d = ctx.choose("variables", dims)
        fam = ctx.choose("response", fams)
        noise = ctx.choose("noise", noises)
        pop, gen = ctx.choose("population and generations", sizes)
        use = ctx.choose("object", ["new", "used before", "two models"] + (["both searches"] if role == "both" and method == "error" else []))
        case = mod.Case(kind, d=d, nh=5, nl=9, fam=fam, noise=noise)
        other = mod.Case(kind, d=d, nh=4, nl=8, fam="kink", noise=noise, shift=13, box="neg")

        def options(p, r):
            kw = {}
            if role != "factor":
                kw["optimizer"] = p
            if role != "parameters":
                kw["rho_optimizer"] = r
            if kind == "sk":
                kw["rho_method"] = method
                kw["rho_optimize"] = role != "parameters"
            return kw

        def ports(s, t):
            p, r = s(ctx, "parameters of " + kind), t(ctx, "factor of " + kind)
            r.repeat = not (role == "both" and method == "bumpiness")       # else it draws random numbers itself
            return p, r
        with C33.Desk():
            s, t = Watched(algo, pop, gen), Watched(algo, pop, gen)
            p, r = ports(s, t)
            np.random.seed(11)
            m = train(case, **options(p, r))
            first = seen(m, case)
            count = (len(p.answers), len(r.answers))
            want = {"gp": 1, "hk": 2, "sk": 2, "ck": 2}[kind]
            ctx.require(role == "factor" or (count[0] == want or (kind == "sk" and method == "bumpiness" and count[0] >= want)),
                        lambda: "%d searches for parameters, expected %d" % (count[0], want))
            ctx.require(count[1] == (0 if role == "parameters" else 1), lambda: "%d searches for the factor" % count[1])
            if role != "parameters":
                ctx.close(np.ravel(m.rho), r.answers[0][1], "factor in use", 0, 0)
            n = train(case, **options(Replay(p, role == "both" and method == "bumpiness"), Replay(r)))
            alike(ctx, first, seen(n, case), "against the same answers of a scripted search", 1e-9)
            if use == "new":
                ctx.state((kind, role, algo, d, fam, noise, pop, gen, use, method))
                ctx.outcome((kind, tuple(count)))
                return
            s2, t2 = Watched(algo, pop, gen), Watched(algo, pop, gen)
            if use == "both searches":
                # one object in turn for the searches of one model
                np.random.seed(11)
                p2, r2 = ports(s2, s2)
                m2 = train(case, **options(p2, r2))
                alike(ctx, seen(m2, case), first, "one object for both searches")
            elif use == "used before":
                busy(s2)
                busy(t2)
                np.random.seed(11)
                p2, r2 = ports(s2, t2)
                m2 = train(case, **options(p2, r2))
                alike(ctx, seen(m2, case), first, "an object used before")
            else:
                np.random.seed(11)
                p2, r2 = ports(s2, t2)
                m2 = train(case, **options(p2, r2))
                np.random.seed(5)
                p3, r3 = ports(s2, t2)
                o2 = train(other, **options(p3, r3))
                alike(ctx, seen(m2, case), first, "after the object trained another model")
                np.random.seed(5)
                p4, r4 = ports(Watched(algo, pop, gen), Watched(algo, pop, gen))
                alike(ctx, seen(o2, other), seen(train(other, **options(p4, r4)), other), "second model of the object")
            ctx.op("share")
        ctx.state((kind, role, algo, d, fam, noise, pop, gen, use, method))
        ctx.outcome((kind, use, tuple(count)))
    return fn


MID = env.fixed_point_minimize(0.5)
SC = dict(acq.SF, CEI=acq.SCA.CEI)


def surrogates(kind, d, fam, shift):
    """trained with hyper-parameters in the middle of their bounds"""
    c = mod.Case(kind, d=d, nh=4, nl=8, fam=fam, shift=shift)
    with env.scripted_minimize(MID):
        m = train(c, optimizer=None)
        g = mod.GP(c.box.copy(), noise_prior=0.0)
        g.train(c.Xh.copy(), (mod.response("kink", c.Xh, c.box) - 0.3).copy())
    return c, m, g


def ask(crit, name, c, m, g, ratio):
    """one query: point and fidelity"""
    if name in acq.MF:
        x, fid = crit.query(m, ratio, float(c.yh.min()))
        return np.array(np.ravel(x), float), int(fid)
    x = crit.query(m, [g]) if name == "CEI" else crit.query(m)
    return np.array(np.ravel(x), float), 0


def chosen(ctx, name, port, x, fid, box, what):
    """the recorded searches of one query against its result"""
    n = 2 if name in acq.MF else 1
    ctx.require(len(port.answers) == n, lambda: "%s: %d searches, expected %d" % (what, len(port.answers), n))
    vals = [a[2] for a in port.answers]
    for a in port.answers:
        ctx.same(a[3], box, what + ": space searched")
    ctx.require(fid in range(n) and vals[fid] == min(vals), lambda: "%s: fidelity %d, least values %s" % (what, fid, vals))
    ctx.same(x, port.answers[fid][1], what + ": point")
    ctx.require(ea.inside(x[None], box), lambda: what + ": point outside the domain")
    port.answers = []


def criteria(names, algos, dims, fams, sizes):
    def fn(ctx):
        name = ctx.choose("criterion", names)
        kind = ctx.choose("model", C26.ALLOWED[name]) if name in acq.MF else "gp"
        algo = ctx.choose("algorithm", algos)
        d = ctx.choose("variables", dims)
        fam = ctx.choose("response", fams)
        pop, gen = ctx.choose("population and generations", sizes)
        make = (acq.MF if name in acq.MF else SC)[name]
        sets = [surrogates(kind, d, fam, 0), surrogates(kind, d, "small", 5), surrogates(kind, 3 - d, fam, 0)]
        order = ctx.choose("order", [(0, 1, 0), (0, 2, 0), (1, 1, 2)])
        # each query by an object of its own
        own = {}
        for i, k in enumerate(order):
            p = Watched(algo, pop, gen)(ctx, name)
            np.random.seed(30 + i)
            x, fid = ask(make(optimizer=p), name, *sets[k], 2.0 + i)
            chosen(ctx, name, p, x, fid, sets[k][0].box, "query %d" % i)
            own[i] = (x, fid)
        # one object and one criterion for all; the other criteria share the object too
        s = Watched(algo, pop, gen)
        p = s(ctx, name)
        crit, held = make(optimizer=p), []
        for i, k in enumerate(order):
            np.random.seed(30 + i)
            got = crit.query(sets[k][1], 2.0 + i, float(sets[k][0].yh.min())) if name in acq.MF else \
                crit.query(sets[k][1], [sets[k][2]]) if name == "CEI" else crit.query(sets[k][1])
            held.append(got)
            p.answers = []
            busy(s)
            for j, h in enumerate(held):
                x, fid = (h if name in acq.MF else (h, 0))
                ctx.same(np.ravel(np.asarray(x, float)), own[j][0], "query %d of one object, seen after query %d" % (j, i))
                ctx.require(int(fid) == own[j][1], lambda: "query %d: fidelity %r" % (j, fid))
            ctx.op("query")
        ctx.state((name, kind, algo, d, fam, pop, gen, order))
        ctx.outcome((name, kind, tuple(v[1] for v in own.values())))
    return fn


def loops(names, algos, boxes):
    def fn(ctx):
        name = ctx.choose("criterion", names)
        algo = ctx.choose("algorithm", algos)
        box = ctx.choose("box", boxes)
        mf, cons = name in acq.MF, name == "CEI"
        make = (acq.MF if mf else SC)[name]
        dom = [np.array(mod.BOX[box](d), float) for d in (2, 1)]

        def start(i, p):
            d, b, fam = 2 - i, dom[i], ("wave", "kink")[i]
            calls = []

            def f(X):
                calls.extend((0, r.copy()) for r in np.asarray(X, float))
                return mod.response(fam, X, b)

            def low(X):
                calls.extend((1, r.copy()) for r in np.asarray(X, float))
                return mod.low(fam, X, b)
            crit = make(optimizer=p)
            if mf:
                prob = bo.Problem(d, None, hf=f, lf=low, box=box)
                o = bo.MFBO(prob, crit, num_init=[3, 6], seed=5, verbose=False,
                            surrogate_name=dict(hk="HierarchicalKriging", sk="ScaledKriging", ck="CoKriging")[C26.ALLOWED[name][0]])
            else:
                prob = bo.Problem(d, None, obj=f, box=box)
                if cons:
                    prob.f_cons, prob.num_cons = (lambda X: mod.response("small", X, b) * 1e3 - 0.3), 1
                o = (bo.CBO if cons else bo.UBO)(prob, crit, num_init=4, seed=5, verbose=False)
            return o, calls

        def step(i, o, calls, p, n, k):
            before = len(calls)
            np.random.seed(60 + 10 * i + k)
            o.run_optimizer(max_iter=n, **({"cost_ratio": 3.0} if mf else {}))
            new = calls[before:]
            ctx.require(len(new) == n, lambda: "%d points evaluated in %d iterations" % (len(new), n))
            w = 2 if mf else 1
            ctx.require(len(p.answers) == w * n, lambda: "%d searches in %d iterations" % (len(p.answers), n))
            for j, (fid, x) in enumerate(new):
                a = p.answers[w * j:w * j + w]
                ctx.require(a[fid][2] == min(v[2] for v in a), lambda: "iteration %d: fidelity %d, least values %s" % (k, fid, [v[2] for v in a]))
                ctx.same(x, a[fid][1], "loop %d: point evaluated in iteration %d" % (i, k))
                ctx.same(a[fid][3], dom[i], "space searched")
            p.answers = []
            ctx.op("iterate")
        with env.scripted_minimize(MID):
            alone = []
            for i in (0, 1):
                p = Watched(algo, 8, 4)(ctx, name)
                o, calls = start(i, p)
                for k in range(3):
                    step(i, o, calls, p, 1, k)
                alone.append((calls, float(o.best if mf else o.best_objective()) if mf or hasattr(o, "best_objective") else None))
            turns = ctx.choose("turns", [(0, 1, 0, 1, 0, 1), (0, 0, 1, 1, 0, 1), (1, 0, 0, 0, 1, 1)])
            s = Watched(algo, 8, 4)
            P = [s(ctx, name), s(ctx, name)]
            both = [start(i, P[i]) for i in (0, 1)]
            k = [0, 0]
            for i in turns:
                step(i, *both[i], P[i], 1, k[i])
                k[i] += 1
            for i in (0, 1):
                a, b = alone[i][0], both[i][1]
                ctx.require([v[0] for v in a] == [v[0] for v in b], lambda: "fidelities %s, alone %s" % ([v[0] for v in b], [v[0] for v in a]))
                ctx.same(np.array([v[1] for v in b]), np.array([v[1] for v in a]), "points of loop %d, taking turns with one object" % i)
        ctx.state((name, algo, box, turns))
        ctx.outcome((name, len(alone[0][0]), tuple(v[0] for v in alone[0][0])))
    return fn


def scenarios(tier):
    A, S, M = list(ea.ALGOS), ["LCB", "EI", "PI", "CEI"], list(acq.MF)
    if tier == "thorough":
        return [("models", models(["gp", "hk", "sk", "ck"], A, [1, 2, 3], ["wave", "small"], [0.0, 0.05, None], [(6, 4), (10, 8)], ["error"])),
                ("factor by bumpiness", models(["sk"], A, [1, 2], ["wave"], [0.0, None], [(6, 3)], ["bumpiness"])),
                ("criteria", criteria(S + M, A, [1, 2], ["wave", "kink"], [(6, 4), (10, 8)])), ("loops", loops(S + M, A, ["wide", "neg"]))]
    return [("models", models(["gp", "hk", "sk", "ck"], A, [2], ["wave"], [0.0, 0.05, None], [(6, 4)], ["error"])),
            ("one variable", models(["gp", "hk", "sk", "ck"], ["pso", "de-best"], [1], ["small"], [0.0, None], [(8, 5)], ["error"])),
            ("factor by bumpiness", models(["sk"], ["pso-fast", "de-rand"], [2], ["wave"], [0.0], [(6, 3)], ["bumpiness"])),
            ("criteria", criteria(S + M, A, [2], ["wave"], [(6, 4)])), ("loops", loops(S + M, ["pso", "de-rand"], ["wide"]))]
