"""Copies and pickles of every kind of object, before, between and after uses."""
import copy
import pickle

import numpy as np

from mc import bo, doe, ea, env, mod, probs
from mc.checks import C27, C32
from mfpml.core.data import mfArray
from mfpml.models.kernels import RBF
from mfpml.problems.functions import FunctionWrapper

BOUNDS = ("3 ways to copy (deepcopy, two pickle protocols) x 4 model kinds x 3 noise settings x copied before or "
          "after a training or two x all sequences of 2 (3 in thorough) later actions on original and copy; copies of a BO run "
          "taken at every iteration of runs of 0-3 iterations of 5 kinds, continued in both orders; samplers, problems, "
          "kernels, acquisitions, optimizers, containers")
ASSUMPTIONS = ["user functions are themselves picklable"]
WAYS = {"deepcopy": copy.deepcopy,
        "pickle": lambda o: pickle.loads(pickle.dumps(o)),
        "pickle protocol 2": lambda o: pickle.loads(pickle.dumps(o, protocol=2))}

# ------------------------------------------------------------------ models
SETS = dict(A=("wave", 6, 3, 0), B=("big", 8, 4, 5), C=("kink", 5, 3, 11))


def case(kind, d, noise, name):
    fam, nl, nh, shift = SETS[name]
    return mod.Case(kind, d, nh=nh, nl=nl, fam=fam, shift=shift, noise=noise)


def fit(m, c):
    np.random.seed(5)
    with env.scripted_minimize(env.fixed_point_minimize(0.7)):
        m.train(*c.data())


def opt(how):
    return dict(none=lambda: None, grid=lambda: mod.Grid(3), pso=lambda: ea.PSO(4, 2), de=lambda: ea.DE(4, 2))[how]()


def models(depth, dims, ways, searches):
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        way = ctx.choose("copy", ways)
        noise = ctx.choose("noise", [0.0, 0.3, None])
        search = ctx.choose("search", searches)
        d = ctx.choose("variables", dims)
        when = ctx.choose("copied after", ["construction", "training", "two trainings", "predictions"])
        acts = [ctx.choose("action %d" % i, ["train original B", "train copy B", "train copy C", "predict original", "predict copy"])
                for i in range(depth)]
        cs = {s: case(kind, d, noise, s) for s in SETS}
        want = {}

        def reference(s):
            if s not in want:
                r = cs[s].build(optimizer=opt(search))
                fit(r, cs[s])
                want[s] = mod.everything(ctx, r, cs[s].q(), cs[s].mf)
            return want[s]

        def verify(m, s, what):
            got = mod.everything(ctx, m, cs[s].q(), cs[s].mf)
            for n, a, b in zip(mod.NAMES, got, reference(s)):
                ctx.close(a, b, "%s of the %s" % (n, what), 1e-9, 1e-10 * (1e-12 + float(np.max(np.abs(b)))))
        m = cs["A"].build(optimizer=opt(search))
        cur = dict(original=None, copy=None)
        if when != "construction":
            fit(m, cs["A"])
            cur["original"] = "A"
        if when == "two trainings":
            fit(m, cs["C"])
            cur["original"] = "C"
        if when == "predictions":
            verify(m, "A", "original before copying")
        ms = dict(original=m, copy=WAYS[way](m))
        cur["copy"] = cur["original"]
        ctx.op(way)
        for w in ms:
            if cur[w]:
                verify(ms[w], cur[w], "%s right after copying" % w)
        for i, a in enumerate(acts):
            a = a.split()
            if a[0] == "train":
                fit(ms[a[1]], cs[a[2]])
                cur[a[1]] = a[2]
            elif cur[a[1]]:
                ms[a[1]].predict(mod.points(d, 3, cs["A"].box, 90), return_std=True)
            ctx.op(" ".join(a))
            for w in ms:
                if cur[w]:
                    verify(ms[w], cur[w], "%s after %s" % (w, acts[:i + 1]))
        ctx.state((kind, way, noise, search, d, when, tuple(sorted((k, v or "") for k, v in cur.items())), tuple(acts)))
        ctx.outcome((cur["original"], cur["copy"]))
    return fn


# -------------------------------------------------------------------- runs
class Objective:
    """a picklable smooth function on a box"""

    def __init__(self, kind, box):
        self.kind, self.box = kind, np.array(box, float)

    def __call__(self, X):
        X = np.asarray(X, float)
        if self.kind == "low":
            return mod.low("wave", X, self.box)
        if self.kind == "cons":
            return mod.response("kink", X, self.box) - 0.2
        return mod.response("wave", X, self.box)


def problem():
    p = bo.Problem(2, None, box="wide")
    b = p.input_domain.copy()
    p.f, p.hf, p.lf = Objective("wave", b), Objective("wave", b), Objective("low", b)
    p.f_cons = Objective("cons", b)
    p.num_cons = 1
    return p


def run(o, n):
    np.random.seed(77)
    with C32.stand_in():
        o.run_optimizer(max_iter=n, stopping_error=1e-9)


def build(kind):
    with C32.stand_in():
        return C32.build(kind, problem(), 31, C32.size(kind))


def resume(most, kinds):
    """a copy made at every point of a run continues like the run itself"""
    def fn(ctx):
        kind = ctx.choose("loop", kinds)
        way = ctx.choose("copy", list(WAYS))
        total = ctx.choose("iterations", list(range(1, most + 1)))
        cut = ctx.choose("copied after", list(range(total + 1)))
        first = ctx.choose("continued first", ["original", "copy"])
        r = build(kind)
        for i in range(total):
            run(r, 1)
        want = C32.snap(r, kind)
        o = build(kind)
        for i in range(cut):
            run(o, 1)
        at = C32.snap(o, kind)
        c = WAYS[way](o)
        ctx.op(way)
        C32.compare(ctx, at, C32.snap(c, kind), "copy right after copying")
        both = [("original", o), ("copy", c)]
        if first == "copy":
            both.reverse()
        for j, (who, x) in enumerate(both):
            for i in range(total - cut):
                run(x, 1)
                ctx.op("run " + who)
            C32.compare(ctx, want, C32.snap(x, kind), "%s after continuing" % who)
            if j == 0:
                C32.compare(ctx, at, C32.snap(both[1][1], kind), "%s while the %s ran" % (both[1][0], who))
        C32.compare(ctx, want, C32.snap(both[0][1], kind), "%s at the end" % both[0][0])
        ctx.state((kind, way, total, cut, first))
        ctx.outcome((kind, want["sample"]))
    return fn


# ---------------------------------------------------------------- optimizers
def optimizers(ctx):
    algo = ctx.choose("algorithm", list(ea.ALGOS))
    way = ctx.choose("copy", list(WAYS))
    before = ctx.choose("runs before", [0, 1, 2])
    order = ctx.choose("then", ["original, copy", "copy, original", "copy, copy", "original, copy, original"])
    fname = ctx.choose("objective", ["sphere", "waves"])
    box = np.array(ea.BOXES["branin"])

    def go(x, seed, f):
        np.random.seed(seed)
        return x.run_optimizer(ea.FUNCS[f], 2, box.copy())

    def check(got, seed, f, what):
        w = go(ea.ALGOS[algo](5, 3), seed, f)
        for k in ("best_x", "best_y", "best_x_historical", "best_y_historical", "all_samples", "all_responses"):
            ctx.same(got[0][k], w[0][k], "%s: %s" % (what, k))
        ctx.same(got[1], w[1], what)
        ctx.same(got[2], w[2], what)
    o = ea.ALGOS[algo](5, 3)
    for i in range(before):
        last = go(o, i, "slope")
    c = WAYS[way](o)
    ctx.op(way)
    xs = dict(original=o, copy=c)
    for i, who in enumerate(order.split(", ")):
        check(go(xs[who], 10 + i, fname), 10 + i, fname, "%s, run %d" % (who, i))
        ctx.op("run " + who)
    if before:
        check(last, before - 1, "slope", "the record of the run before copying")
        rec = WAYS[way](last)
        check(rec, before - 1, "slope", "the copy of a record")
    ctx.state((algo, way, before, order, fname))
    ctx.outcome((algo, fname, len(order)))


# ------------------------------------------------------------------ samplers
def samplers(ctx):
    kind = ctx.choose("sampler", list(doe.SF) + ["mf-" + k for k in doe.MF] + ["fixed"])
    nested = ctx.choose("nested", [True, False]) if kind[:2] == "mf" else False
    way = ctx.choose("copy", list(WAYS))
    before = ctx.choose("drawn before", [0, 1, 2])
    box = np.array(doe.BOXES["branin"], float)
    ops = [ctx.choose("then %d" % i, ["original 1", "copy 1", "copy 2"]) for i in range(2)]

    def make():
        if kind == "fixed":
            return doe.FixNumberSampler([1.5, -2.0])
        if kind[:2] == "mf":
            return doe.MF[kind[3:]](box, num_fidelity=2, nested=nested)
        return doe.SF[kind](box)

    def drawn(s, k):
        np.random.seed(3)
        if kind == "fixed":
            r = s.get_samples(3 + k)
        else:
            r = s.get_samples(num_samples=[4 * k, 8 * k] if kind[:2] == "mf" else 4 * k, seed=40 + k)
        return [np.array(a) for a in (r if isinstance(r, list) else [r])]

    def held(s):
        d = s.data if kind[:2] == "mf" else s.samples
        return [np.array(a) for a in (d if isinstance(d, list) else [d])]
    s = make()
    for i in range(before):
        last = drawn(s, i + 1)
    xs = dict(original=s, copy=WAYS[way](s))
    ctx.op(way)
    cur = dict(original=last, copy=last) if before else {}
    for who in cur:
        for a, b in zip(held(xs[who]), cur[who]):
            ctx.same(a, b, "points held by the %s after copying" % who)
    for op in ops:
        who, k = op.split()
        got = drawn(xs[who], int(k))
        want = drawn(make(), int(k))
        ctx.op("draw " + op)
        ctx.require(len(got) == len(want), "number of fidelities")
        for a, b in zip(got, want):
            ctx.same(a, b, "design drawn by the %s" % who)
        cur[who] = want
        for w in cur:
            for a, b in zip(held(xs[w]), cur[w]):
                ctx.same(a, b, "points held by the %s after %s" % (w, ops))
    ctx.state((kind, nested, way, before, tuple(ops)))
    ctx.outcome((kind, before))


# ------------------------------------------------------------------ problems
T = probs.table()


def problems(ctx):
    from mc.checks import C08
    name = ctx.choose("problem", list(T))
    way = ctx.choose("copy", list(WAYS))
    a = probs.make(T[name])
    before = C08.snap(a, T[name])
    b = WAYS[way](a)
    ctx.op(way)
    C08.verify(ctx, b, T[name], "copy of " + name)
    ctx.require(C08.snap(b, T[name]) == before, "the copy of %s differs" % name)
    c = WAYS[way](b)
    ctx.require(C08.snap(c, T[name]) == before, "the copy of the copy of %s differs" % name)
    ctx.require(C08.snap(a, T[name]) == before, "%s changed when copied" % name)
    ctx.state((name, way))
    ctx.outcome(name)


# -------------------------------------------------------------- small things
def small(ctx):
    way = WAYS[ctx.choose("copy", list(WAYS))]
    what = ctx.choose("object", ["kernel", "trend", "container", "wrapper"])
    X = mod.points(2, 4, mod.BOX["unit"](2))
    if what == "kernel":
        k = RBF(theta=np.array([0.3, -0.2]), bounds=[-1.0, 2.0])
        K = k.get_kernel_matrix(X, X)
        c = way(k)
        ctx.same(c.get_kernel_matrix(X, X), K, "kernel of the copy")
        ctx.same(c._get_bounds, k._get_bounds, "bounds of the copy")
        c.set_params(np.array([1.0, 1.0]))
        ctx.same(k.get_kernel_matrix(X, X), K, "kernel after setting the copy")
        k.set_params(np.array([-1.0, 0.4]))
        w = RBF(theta=np.array([1.0, 1.0]))
        ctx.close(c.get_kernel_matrix(X, X), w.get_kernel_matrix(X, X), "kernel of the copy after setting both", 1e-12, 1e-12)
    elif what == "trend":
        for t in mod.TREND.values():
            ctx.same(way(t())(X), t()(X), "trend of the copy")
    elif what == "container":
        m = mfArray([X, X[:2] + 1])
        c = way(m)
        ctx.require(c.n_levels == 2 and list(c.size) == [4, 2], "size of the copy")
        ctx.same(c.hf, X, "high fidelity of the copy")
        ctx.same(c[1], X[:2] + 1, "level of the copy")
        c([X * 3])
        ctx.require(m.n_levels == 2, "the original changed")
        ctx.same(m[0], X, "the original after setting the copy")
    elif what == "wrapper":
        for args in ((), (2.0,), (2.0, 3.0), None):
            f = way(FunctionWrapper(scaled, args))
            ctx.same(f(X), scaled(X, *(args or ())), "wrapped function with %s" % (args,))
            g = FunctionWrapper(function=scaled, args=args)
            ctx.same(g(X), scaled(X, *(args or ())), "wrapped function with %s" % (args,))
    ctx.op(what)
    ctx.state((what, way is WAYS["deepcopy"]))


def acquisitions(ctx):
    """copies give the value and the proposal of the original"""
    name, kind, d = C27.pick(ctx)
    way = WAYS[ctx.choose("copy", list(WAYS))]
    model_too = ctx.choose("copied", ["criterion", "criterion and surrogate"])
    ms, case_ = C27.surrogates(name, kind, d, "wide")
    opts = dict(kappa=[0.4, 2.5]) if name == "LCB" else {}
    a = type(C27.make(name, None))(**opts)

    def value(x, surr):
        np.random.seed(8)
        with C32.stand_in():
            q = C27.query(name, x, surr, 3.0, 0.2)
        v = [C27.criterion(name, x, surr, p.reshape(1, -1), 3.0, 0.2, f) for p in case_.q()[:4]
             for f in ((0, 1) if name not in C27.SURE else (0,))]
        return v, [np.ravel(np.array(t, float)).tolist() for t in (q if isinstance(q, tuple) else [q])]
    want = value(a, ms)
    c = way(a)
    cs = [way(m) for m in ms] if model_too != "criterion" else ms
    ctx.op("copy")
    ctx.require(value(c, cs) == want, lambda: "copy of %s: %s, expected %s" % (name, value(c, cs), want))
    ctx.require(value(a, ms) == want, "%s changed when copied" % name)
    ctx.state((name, kind, d, model_too))
    ctx.outcome((name, want[1]))


def scaled(x, a=1.0, b=0.0):
    return a * np.sum(x, axis=1, keepdims=True) + b


def scenarios(tier):
    if tier == "thorough":
        m = [("models", models(3, [1, 2], list(WAYS), ["none", "grid", "de"]))]
    else:
        m = [("models", models(2, [1], ["deepcopy", "pickle"], ["none", "grid"]))]
    return m + [("resume", resume(4 if tier == "thorough" else 2, C32.KINDS)),
                ("optimizers", optimizers), ("samplers", samplers), ("acquisitions", acquisitions),
                ("problems", problems), ("small", small)]
