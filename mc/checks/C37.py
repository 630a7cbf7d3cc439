"""Every crash point of runs, trainings and searches, then carrying on."""
import itertools

import numpy as np
import scipy.optimize as so

from mc import acq, bo, ea, env, mod
from mc.checks import C27, C32

BOUNDS = ("5 loops x runs of 1-3 iterations x up to 2 failures at any of: construction, query, each evaluation, surrogate "
          "training, of any iteration x 2 exception kinds x 2 values per point x all fidelity sequences; trainings of 4 models "
          "failing at every search and every evaluation of a search; PSO and DE failing at every population; "
          "8 criteria failing at every prediction of a search")
ASSUMPTIONS = ["proposals depend on the surrogate's data only, so that a repeated "
               "iteration proposes the same point",
               "after a failed surrogate training the caller trains the surrogates on the record before going on"]


class Crash(RuntimeError):
    pass


class Bus:
    """raises at the armed stage"""

    def __init__(self):
        self.armed, self.exc, self.skip = None, None, 0

    def arm(self, stage, exc, skip=0):
        self.armed, self.exc, self.skip = stage, exc, skip

    def hit(self, stage):
        if self.armed == stage:
            if self.skip:
                self.skip -= 1
                return
            self.armed = None
            raise self.exc


class Fn:
    """value of the i-th distinct point; may fail"""

    def __init__(self, bus, stage, values, width=1):
        self.bus, self.stage, self.s = bus, stage, bo.Script(values, width)

    def __call__(self, X):
        self.bus.hit(self.stage)
        return self.s(X)


class Ask:
    """proposes the next of a list, by the number of samples of the surrogate"""

    def __init__(self, bus, points, n0, fids=None):
        self.bus, self.points, self.n0, self.fids = bus, points, n0, fids

    def eval(self, *a, **k):
        raise NotImplementedError

    def query(self, *a, **k):
        self.bus.hit("query")
        m = k.get("surrogate", k.get("obj_surrogate", k.get("mf_surrogate", a[0] if a else None)))
        if self.fids is None:
            return self.points[len(m.sample_x) - self.n0].copy()
        i = len(m._get_sample_hf) + len(m._get_sample_lf) - self.n0
        return self.points[i].copy(), self.fids[i]


STAGES = dict(unc=["query", "f", "fit"], cons=["query", "f", "g", "fit"])
MFK = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]


def boom(kind):
    return {"error": Crash("simulation failed"), "interrupt": KeyboardInterrupt("stop")}[kind]


def loops(kinds, iters, faults, excs):
    def fn(ctx):
        kind = ctx.choose("loop", kinds)
        mf = kind in MFK
        n1 = ctx.choose("iterations", iters)
        fids = ctx.choose("fidelities", list(itertools.product((0, 1), repeat=n1))) if mf else (0,) * n1
        vals = [ctx.choose("value %d" % i, [-2.0, 3.0]) if f == 0 else -5.0 for i, f in enumerate(fids)]

        def stages(i):
            return ["query", "hf" if fids[i] == 0 else "lf", "fit"] if mf else STAGES[kind]
        where = [("build", s) for s in (["hf", "lf", "fit"] if mf else STAGES[kind][1:])]
        where += [(i, s) for i in range(n1) for s in stages(i)]
        plan = []
        for j in range(ctx.choose("failures", list(range(1, faults + 1)))):
            # in order; a failed training is not repeated with the same point
            i = 0 if not plan else where.index(plan[-1]) + (plan[-1][1] == "fit" and plan[-1][0] != "build")
            if where[i:]:
                plan.append(ctx.choose("failure %d" % j, where[i:]))
        ename = ctx.choose("exception", excs)

        def make(bus):
            n0 = 2 if mf else 3
            v0 = [0.5, 1.0, 2.0][:n0]
            d = 2
            P = bo.proposals(d, n1 + 1, "row")
            if mf:
                H = Fn(bus, "hf", [[v] for v in v0 + [v for v, f in zip(vals, fids) if f == 0]])
                L = Fn(bus, "lf", [[v] for v in (0.7, -0.4, 1.9)] + [[v - 0.3 * i] for i, (v, f) in enumerate(zip(vals, fids)) if f == 1])
                p = bo.Problem(d, None, hf=H, lf=L)
                ask = Ask(bus, P, n0 + 3, tuple(fids) + (0,))
                return (H, L), lambda: bo.MFBO(p, ask, num_init=[n0, 3], surrogate_name=kind, seed=9, verbose=False)
            F = Fn(bus, "f", [[v] for v in v0 + vals])
            if kind == "unc":
                p = bo.Problem(d, None, obj=F)
                return (F,), lambda: bo.UBO(p, Ask(bus, P, n0), num_init=n0, seed=9)
            G = bo.Script([[(-1.0 if i % 2 else 0.5) - 0.01 * i] for i in range(n0 + n1)])
            g = Fn(bus, "g", G.values)
            p = bo.Problem(d, None, obj=F, cons=bo.Script([]))
            p.f_cons, p.num_cons = g, 1
            return (F, g), lambda: bo.CBO(p, Ask(bus, P, n0), num_init=n0, seed=9)

        def record(o):
            if mf:
                r = dict(hf=o.sample[0], yh=o.response[0], lf=o.sample[1], yl=o.response[1], order=np.array(o.fidelity_query_order, float))
            elif kind == "unc":
                r = dict(sample=o.sample, response=o.response)
            else:
                r = dict(sample=o.sample, response=o.obj_response, cons=o.cons_response)
            r.update(best=np.array(float(o.best)), history=np.array([float(h) for h in o.history_best]),
                     best_x=np.ravel(o.best_x) if o.best_x is not None else np.zeros(0))
            r["points"] = np.concatenate([np.ravel(h) if h is not None else np.zeros(0) for h in o.history_best_x])
            Q = mod.points(2, 3, o.problem.input_domain, 300)
            if kind == "cons":
                r["prediction"] = np.hstack([o.obj_surrogate.predict(Q), o.cons_surrogates[0].predict(Q)])
            else:
                r["prediction"] = o.surrogate.predict(Q)
            return {k: np.array(v, float) for k, v in r.items()}

        bus = Bus()
        inner = env.fixed_point_minimize(0.8)

        def search(fun, x0=None, *a, **k):
            bus.hit("fit")
            return inner(fun, x0, *a, **k)
        with env.scripted_minimize(search):
            # the run without failures, after every iteration
            quiet = Bus()
            _, b = make(quiet)
            o = b()
            want = [record(o)]
            for i in range(n1):
                o.run_optimizer(max_iter=1, stopping_error=1e-9)
                want.append(record(o))
            # the run with failures
            fns, b = make(bus)
            o, done, lost = None, 0, 0
            pend = list(plan)
            while o is None or done < n1:
                at = "build" if o is None else done
                # the next failure, at this place or at a later iteration of this call
                armed = None
                if pend and pend[0][0] == at:
                    armed = pend.pop(0)
                elif pend and o is not None and pend[0][0] != "build":
                    # run up to the iteration that will fail
                    o.run_optimizer(max_iter=pend[0][0] - done, stopping_error=1e-9)
                    done = pend[0][0]
                    continue
                e = boom(ename)
                if armed:
                    bus.arm(armed[1], e)
                try:
                    if o is None:
                        o = b()
                    else:
                        o.run_optimizer(max_iter=n1 - done if not pend else 1, stopping_error=1e-9)
                        done = n1 if not pend else done + 1
                    ctx.require(not armed, lambda: "the failure at %s did not reach the caller" % (armed,))
                except (Crash, KeyboardInterrupt) as got:
                    if got is not e:
                        raise
                    if o is not None:
                        if armed[1] != "fit":
                            now = record(o)
                            if not lost:
                                for k in now:
                                    ctx.same(now[k], want[done][k], "%s after the failure at %s" % (k, armed))
                            else:
                                grown(ctx, now, want, done, "after the failure at %s" % (armed,))
                        else:
                            # the evaluated point is in the record, with its values
                            done += 1
                            lost += 1
                            if mf or kind == "unc":
                                o.surrogate.train(o.sample, o.response)
                            else:
                                o.obj_surrogate.train(o.sample, o.obj_response)
                                o.cons_surrogates[0].train(o.sample, o.cons_response[:, 0])
                            grown(ctx, record(o), want, done, "after the failure at %s" % (armed,))
                ctx.op("run")
            now = record(o)
            if not lost:
                for k in now:
                    ctx.same(now[k], want[n1][k], "%s after carrying on from %s" % (k, plan))
            else:
                grown(ctx, now, want, n1, "at the end")
        ctx.state((kind, n1, fids, tuple(vals), tuple(plan), ename))
        ctx.outcome((kind, tuple(now["history"])))
    return fn


def grown(ctx, now, want, done, what):
    """a point whose training failed is kept, only histories may lack it"""
    for k in ("sample", "response", "cons", "hf", "lf", "yh", "yl", "prediction"):
        if k in now:
            ctx.same(now[k], want[done][k], "%s %s" % (k, what))
    y = now.get("response", now.get("yh"))
    ctx.require(float(now["best"]) in np.ravel(y) or np.isinf(now["best"]), lambda: "best %r %s was never observed" % (now["best"], what))


# --------------------------------------------------------------- trainings
SETS = dict(A=("wave", 6, 3, 0), B=("big", 8, 4, 5))


def case(kind, d, noise, name):
    fam, nl, nh, shift = SETS[name]
    return mod.Case(kind, d, nh=nh, nl=nl, fam=fam, shift=shift, noise=noise)


def trainings(dims):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        noise = ctx.choose("noise", [0.0, 0.3, None])
        d = ctx.choose("variables", dims)
        trained = ctx.choose("trained before on", [None, "A", "B"])
        what = ctx.choose("failing", ["search", "evaluation", "lengths", "interrupt"])
        rho = kind == "sk" and ctx.choose("scale factor searched", [False, True])
        searches = 1 if kind == "gp" else 2
        at = ctx.choose("at", list(range(searches * (2 if what == "evaluation" else 1) + (1 if rho and what == "search" else 0)))) \
            if what != "lengths" else 0
        then = ctx.choose("then", ["A", "B"])
        kw = dict(optimizer=None, optimizer_restart=0)
        if rho:
            kw["rho_optimize"] = True
        bus = Bus()

        def search(fun, x0=None, *a, **k):
            bus.hit("search")
            b = env._bounds_array(k["bounds"])
            xs = [b[:, 0] + t * (b[:, 1] - b[:, 0]) for t in (0.75, 0.8)]
            v = []
            for x in xs:
                bus.hit("evaluation")
                v.append(float(np.ravel(fun(x))[0]))
            i = int(np.argmin(v))
            return so.OptimizeResult(x=xs[i], fun=v[i], success=True)

        def fit(m, s):
            np.random.seed(4)
            m.train(*cs[s].data())
        cs = {s: case(kind, d, noise, s) for s in SETS}
        m = cs["A"].build(**kw)
        with env.scripted_minimize(search):
            if trained:
                fit(m, trained)
            e = boom("interrupt" if what == "interrupt" else "error")
            X, Y = cs["A"].data()
            if what == "lengths":
                if cs["A"].mf:
                    Y = [Y[0][:-1], Y[1][:-1]]
                else:
                    Y = Y[:-1]
            else:
                bus.arm("evaluation" if what == "evaluation" else "search", e, at)
            keep = [np.array(a) for a in (X + Y if isinstance(X, list) else [X, Y])]
            try:
                m.train(X, Y)
                failed = False
            except BaseException as got:
                failed = True
                if what != "lengths" and got is not e:
                    raise
            ctx.require(failed, lambda: "training with failing %s raises nothing" % what)
            for a, b in zip(keep, X + Y if isinstance(X, list) else [X, Y]):
                ctx.same(b, a, "the failed training changed the caller's data")
            ctx.op("failed training")
            fit(m, then)
            ctx.op("training")
            f = cs[then].build(**kw)
            fit(f, then)
        Q = cs[then].q()
        for n, a, b in zip(mod.NAMES, mod.everything(ctx, m, Q, cs[then].mf), mod.everything(ctx, f, Q, cs[then].mf)):
            ctx.close(a, b, "%s after a failed training" % n, 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
        ctx.state((kind, noise, d, trained, what, rho, at, then))
        ctx.outcome((kind, then))
    return fn


# ------------------------------------------------------------- populations
def populations(ctx):
    algo = ctx.choose("algorithm", list(ea.ALGOS))
    pop, gen = 5, 3
    at = ctx.choose("failing population", list(range(gen + 1)))
    ename = ctx.choose("exception", ["error", "interrupt"])
    before = ctx.choose("run before", [False, True])
    again = ctx.choose("fails again", [False, True])
    fname = ctx.choose("objective", ["sphere", "waves", "steps"])
    box = np.array(ea.BOXES["branin"])
    keep = box.copy()

    def go(x, f, seed):
        np.random.seed(seed)
        return x.run_optimizer(f, 2, box)

    def check(got, ref, what):
        for k in ("best_x", "best_y", "best_x_historical", "best_y_historical", "all_samples", "all_responses"):
            ctx.same(got[0][k], ref[0][k], "%s: %s" % (what, k))
        ctx.same(got[1], ref[1], what)
        ctx.same(got[2], ref[2], what)
    o = ea.ALGOS[algo](pop, gen)
    if before:
        first = go(o, ea.FUNCS["slope"], 1)
    for i in range(1 + again):
        bus = Bus()
        e = boom(ename)
        bus.arm("f", e, (at + i) % (gen + 1))
        n = [0]

        def f(x):
            bus.hit("f")
            n[0] += 1
            return ea.FUNCS[fname](x)
        try:
            go(o, f, 2)
            ctx.fail("the failure in population %d did not reach the caller" % at)
        except (Crash, KeyboardInterrupt) as got:
            ctx.require(got is e, "another exception reached the caller")
        ctx.require(n[0] == (at + i) % (gen + 1), lambda: "%d populations evaluated before the failure" % n[0])
        ctx.op("failed run")
    check(go(o, ea.FUNCS[fname], 3), go(ea.ALGOS[algo](pop, gen), ea.FUNCS[fname], 3), "run after a failed one")
    ctx.op("run")
    if before:
        check(first, go(ea.ALGOS[algo](pop, gen), ea.FUNCS["slope"], 1), "record of the run before the failed one")
    ctx.same(box, keep, "the caller's box")
    ctx.state((algo, at, ename, before, again, fname))
    ctx.outcome((algo, fname))


# ----------------------------------------------------------------- queries
def queries(ctx):
    """the surrogate fails at the k-th prediction of a search"""
    name, kind, d = C27.pick(ctx)
    at = ctx.choose("failing prediction", [0, 1, 2, 3, 5])
    own = ctx.choose("search", ["built-in", "supplied"])
    ename = ctx.choose("exception", ["error", "interrupt"])
    ms, c = C27.surrogates(name, kind, d, "wide")
    bus = Bus()

    def value(a):
        np.random.seed(6)
        with C32.stand_in():
            q = C27.query(name, a, ms, 3.0, 0.2)
        return [np.ravel(np.array(t, float)).tolist() for t in (q if isinstance(q, tuple) else [q])]

    def make():
        return C27.make(name, None if own == "built-in" else ea.DE(4, 2))
    want = value(make())
    Q = c.q()
    base = [mod.everything(ctx, m, Q, c.mf) for m in ms]
    a = make()
    real = ms[0].predict
    e = boom(ename)
    bus.arm("predict", e, at)

    def predict(*p, **k):
        bus.hit("predict")
        return real(*p, **k)
    ms[0].predict = predict
    failed = False
    try:
        value(a)
    except (Crash, KeyboardInterrupt) as got:
        failed = got is e
        ctx.require(failed, "another exception reached the caller")
    ms[0].predict = real
    del ms[0].predict
    ctx.op("failed query")
    ctx.require(failed or bus.armed, "the failure did not reach the caller")
    ctx.require(value(a) == want, lambda: "query after a failed one: %s, expected %s" % (value(a), want))
    ctx.op("query")
    for m, b in zip(ms, base):
        for n, x, y in zip(mod.NAMES, mod.everything(ctx, m, Q, c.mf), b):
            ctx.same(x, y, "%s of the surrogate" % n)
    ctx.state((name, kind, d, at, own, ename))
    ctx.outcome((name, want))


def scenarios(tier):
    if tier == "thorough":
        return [("loops", loops(["unc", "cons"] + MFK, [1, 2, 3], 2, ["error", "interrupt"])),
                ("thrice", loops(["unc", "cons", MFK[0]], [3], 3, ["error"])),
                ("trainings", trainings([1, 2])), ("populations", populations), ("queries", queries)]
    return [("loops", loops(["unc", "cons"] + MFK, [1, 2], 2, ["error"])),
            ("interrupts", loops(["unc", "cons", MFK[0]], [2], 1, ["interrupt"])),
            ("longer", loops(["unc", "cons"] + MFK[:1], [3], 1, ["error"])),
            ("trainings", trainings([1])), ("populations", populations), ("queries", queries)]
