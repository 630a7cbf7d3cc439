"""Interleavings of building and running Bayesian optimization objects."""
import itertools

import numpy as np
import scipy.optimize as so

from mc import acq, bo, env, mod, ref
from mfpml.design_of_experiment import LatinHyperCube
from mfpml.design_of_experiment.mf_samplers import MFLatinHyperCube
from mfpml.optimization import sf_cons_acqusitions as SCA

BOUNDS = ("every sequence of up to 3 (4 in thorough) operations (build one of five kinds, run any "
          "object built so far, disturb the global random generator) followed by building and "
          "running a probe of every kind; designs of all seeds, sizes and boxes of an alphabet")
ASSUMPTIONS = ["the searches of the surrogates and acquisitions are stand-ins that answer "
               "with points drawn from the global random generator; the library's own "
               "searches run in scenario 'own searches'",
               "an object is run right after it is built where its samples are compared"]
KINDS = ["unc", "cons", "HierarchicalKriging", "ScaledKriging", "CoKriging"]


def draw_minimize(fun, x0=None, *a, **k):
    b = env._bounds_array(k["bounds"])
    w = b[:, 1] - b[:, 0]
    x = b[:, 0] + w * (0.6 + 0.3 * (np.ravel(x0) - b[:, 0]) / w)
    return so.OptimizeResult(x=x, fun=float(np.ravel(fun(x, *k.get("args", ())))[0]), success=True)


def draw_de(func, bounds=None, args=(), *a, **k):
    b = env._bounds_array(bounds)
    P = np.random.uniform(b[:, 0], b[:, 1], size=(4, len(b)))
    v = [float(np.ravel(func(p, *args))[0]) for p in P]
    i = int(np.argmin(v))
    return so.OptimizeResult(x=P[i], fun=v[i], success=True)


def problem(box, d=2):
    p = bo.Problem(d, None, box=box)
    b = p.input_domain.copy()
    p.f = p.hf = lambda X: mod.response("wave", np.asarray(X, float), b)
    p.lf = lambda X: mod.low("wave", np.asarray(X, float), b)
    p.f_cons = lambda X: mod.response("kink", np.asarray(X, float), b)[:, :1] - 0.2
    p.num_cons = 1
    return p


def build(kind, prob, seed, n):
    """n: caller's size argument (int, or list for the multi-fidelity loop)"""
    if kind == "unc":
        return bo.UBO(prob, acq.SUA.LCB(), num_init=n, seed=seed)
    if kind == "cons":
        return bo.CBO(prob, SCA.CEI(), num_init=n, seed=seed)
    return bo.MFBO(prob, acq.MFA.VFEI() if kind == KINDS[2] else acq.MFA.AugmentedEI(), num_init=n, surrogate_name=kind, seed=seed, verbose=False)


def size(kind):
    return 3 if kind in ("unc", "cons") else [3, 5]


def design(kind, dom, n, seed):
    if kind in ("unc", "cons"):
        return [LatinHyperCube(design_space=dom).get_samples(num_samples=n, seed=seed)]
    return MFLatinHyperCube(design_space=dom, num_fidelity=2).get_samples(num_samples=list(n), seed=seed)


def go(o, n=2):
    kw = dict(max_iter=n, stopping_error=1e-9)
    o.run_optimizer(**kw)


def snap(o, kind):
    """everything the object reports, as plain arrays"""
    out = dict(best=np.array(float(o.best)),
               best_x=np.ravel(o.best_x) if o.best_x is not None else np.zeros(0),
               history=np.array([float(h) for h in o.history_best]))
    out["history of points"] = np.concatenate([np.ravel(h) if h is not None else np.zeros(0) for h in o.history_best_x])
    Q = mod.points(2, 3, o.problem.input_domain, 300)
    if kind == "unc":
        out.update(sample=o.sample, response=o.response, init=o.init_sample, init_y=o.init_response,
                   prediction=o.surrogate.predict(Q))
    elif kind == "cons":
        out.update(sample=o.sample, response=o.obj_response, cons=o.cons_response, init=o.init_sample,
                   init_y=o.init_obj_response, init_c=o.init_cons_response,
                   prediction=np.hstack([o.obj_surrogate.predict(Q), o.cons_surrogates[0].predict(Q)]))
        out["number of constraint surrogates"] = np.array(len(o.cons_surrogates))
    else:
        out.update(sample=np.vstack(o.sample), response=np.vstack(o.response), init=np.vstack(o.init_sample),
                   init_y=np.vstack(o.init_response), order=np.array(o.fidelity_query_order),
                   sizes=np.array([len(s) for s in list(o.sample) + list(o.init_sample)]),
                   prediction=o.surrogate.predict(Q))
    return {k: np.array(v, float) for k, v in out.items()}


def compare(ctx, a, b, what, only=None):
    for k in a:
        if only is None or k in only:
            ctx.same(b[k], a[k], "%s: %s" % (what, k))


def fresh(kind, n=2, own=False):
    """the behaviour of a probe in a fresh process"""
    o = build(kind, problem("wide"), 31, size(kind))
    a = snap(o, kind)
    go(o, n)
    return a, snap(o, kind)


def stand_in():
    import contextlib
    st = contextlib.ExitStack()
    st.enter_context(env.scripted_minimize(draw_minimize))
    st.enter_context(env.scripted_de(draw_de))
    return st


def reference(own, kinds=KINDS):
    """computed once, before anything else happens in this process"""
    import contextlib
    import io
    out = {}
    for k in kinds:
        np.random.seed(1)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if own:
                    out[k] = fresh(k, 1)
                else:
                    with stand_in():
                        out[k] = fresh(k)
        except Exception as e:
            out[k] = e
    return out


def disturb():
    np.random.seed(99)
    np.random.rand(7)


def interleave(kinds, depth, probes, refs, own=False):
    def fn(ctx):
        import contextlib
        probe = ctx.choose("probe", probes)
        r = refs[probe]
        if isinstance(r, Exception):
            raise r
        objs = []           # (kind, object, size argument, caller's copy)
        shared = {}
        with (contextlib.nullcontext() if own else stand_in()):
            n = ctx.choose("operations", list(range(depth + 1)) if not own else [depth])
            for i in range(n):
                ops = [("disturb", None)] + [("build", k) for k in kinds] + [("run", j) for j in range(len(objs))]
                op, arg = ctx.choose("operation %d" % i, ops)
                before = [snap(o, k) for k, o, _, _ in objs]
                if op == "disturb":
                    disturb()
                elif op == "build":
                    prob = shared.setdefault("problem", problem("wide"))
                    dom = prob.input_domain.copy()
                    s = size(arg)
                    o = build(arg, prob, 31 + i % 2, s)
                    ctx.require(s == size(arg), lambda: "construction changed the caller's size argument to %s" % (s,))
                    ctx.same(prob.input_domain, dom, "construction changed the problem's domain")
                    want = design(arg, dom, size(arg), 31 + i % 2)
                    ctx.same(snap(o, arg)["init"], np.vstack(want), "initial design of object %d" % len(objs))
                    objs.append((arg, o, s, size(arg)))
                else:
                    prob = shared["problem"]
                    dom = prob.input_domain.copy()
                    go(objs[arg][1], 1)
                    ctx.same(prob.input_domain, dom, "running changed the problem's domain")
                    now = snap(objs[arg][1], objs[arg][0])
                    compare(ctx, before[arg], now, "running object %d" % arg, ("init", "init_y", "init_c"))
                ctx.op("%s %s" % (op, arg))
                for j, b in enumerate(before):
                    if op != "run" or j != arg:
                        compare(ctx, b, snap(objs[j][1], objs[j][0]), "object %d after %s %s" % (j, op, arg))
                    ctx.require(objs[j][2] == objs[j][3], lambda: "size argument of object %d changed to %s" % (j, objs[j][2]))
            before = [snap(o, k) for k, o, _, _ in objs]
            prob = shared.setdefault("problem", problem("wide"))
            p = build(probe, prob, 31, size(probe))
            ctx.op("build probe")
            compare(ctx, r[0], snap(p, probe), "probe as built")
            go(p, 1 if own else 2)
            ctx.op("run probe")
            end = snap(p, probe)
            compare(ctx, r[1], end, "probe after running")
            for j, b in enumerate(before):
                compare(ctx, b, snap(objs[j][1], objs[j][0]), "object %d after the probe" % j)
            ctx.state((probe, tuple(k for k, _, _, _ in objs), tuple(len(o.history_best) for _, o, _, _ in objs), np.random.rand()))
            ctx.outcome((probe, end["sample"]))
    return fn


def designs(ctx):
    kind = ctx.choose("kind", ["unc", "cons", "HierarchicalKriging"])
    box = ctx.choose("box", ["unit", "wide", "neg", "int"])
    d = ctx.choose("variables", [1, 2, 3, 5, 10])
    n = ctx.choose("size", [3, 5] if kind in ("unc", "cons") else [[3, 5], [4, 4], [2, 7]])
    prob = problem(box, d)
    prob.f = prob.hf = lambda X: mod.response("wave", np.asarray(X, float), dom)
    dom = prob.input_domain.copy()
    all_ = {}
    with stand_in():
        for seed in (0, 1, 2, 1996):
            disturb() if seed % 2 else np.random.seed(3)
            o = build(kind, prob, seed, list(n) if isinstance(n, list) else n)
            ctx.op("build")
            got = o.init_sample if isinstance(o.init_sample, list) else [o.init_sample]
            want = design(kind, dom, n, seed)
            ctx.require(len(got) == len(want), "number of fidelities of the initial design")
            for i, (g, w) in enumerate(zip(got, want)):
                ctx.same(g, w, "initial design %d of seed %d" % (i, seed))
                ctx.require(len(g) == (n[i] if isinstance(n, list) else n), "size of the initial design")
                ctx.require(np.all(g >= dom[:, 0]) and np.all(g <= dom[:, 1]), "initial design outside the domain")
            for s, w in all_.items():
                ctx.require(not np.array_equal(w[0], got[0]), lambda: "seeds %d and %d give the same design" % (s, seed))
            all_[seed] = [g.copy() for g in got]
    ctx.state((kind, box, d, str(n)))
    ctx.outcome(got[0])


def scenarios(tier):
    refs = reference(False)
    if tier == "thorough":
        own = reference(True)
        return [("designs", designs),
                ("interleavings", interleave(KINDS, 3, KINDS, refs)),
                ("deeper", interleave(["unc", "cons", KINDS[2]], 4, ["unc", "cons", KINDS[2]], refs)),
                ("own searches", interleave(KINDS, 1, KINDS, own, True))]
    own = reference(True, KINDS[:3])
    return [("own searches", interleave(KINDS[:3], 1, KINDS[:3], own, True)),
            ("designs", designs),
            ("interleavings", interleave(["unc", "cons", KINDS[2]], 3, ["unc", "cons", KINDS[2]], refs)),
            ("surrogates", interleave(KINDS[2:], 2, KINDS[3:], refs))]
