"""Histories that mix valid requests with requests that must be refused."""
import contextlib
import io
import os
import pickle

import numpy as np

from mc import acq, bo, doe, ea, env, mod
from mc.checks import C26, C27, C32, C33

BOUNDS = ("all sequences of up to 3 (4 in thorough) requests, valid or refused, on multi-fidelity samplers (2 kinds x nested or not), "
          "3 multi-fidelity models with 4 criteria, differential evolution, and the multi-fidelity loop; refused: counts out of order, "
          "design spaces of another type, unknown fidelities (7 values), models of another kind, unknown strategies (5), unknown surrogates (5)")
ASSUMPTIONS = ["searches of models and criteria are stand-ins"]


# ---------------------------------------------------------------- samplers
DRAWS = {"2-4": ([2, 4], 7), "3-3": ([3, 3], 1), "1-6": ([1, 6], 7)}
BAD = {"4-2": [4, 2], "3-2": [3, 2]}


def samplers(depth):
    def fn(ctx):
        kind = ctx.choose("sampler", list(doe.MF))
        nested = ctx.choose("nested", [False, True])
        plan = [ctx.choose("request %d" % i, list(DRAWS) + list(BAD) + ["save", "tuple space", "number space"]) for i in range(depth)]
        box = np.array([[-5.0, 10.0], [0.0, 15.0]])
        s = doe.MF[kind]([box.copy(), box.copy()], nested=nested)
        held = None
        with C33.Desk() as desk:
            for i, op in enumerate(plan):
                ctx.op(op)
                if op in DRAWS:
                    n, seed = DRAWS[op]
                    held = [np.array(a) for a in s.get_samples(list(n), seed=seed)]
                    f = doe.MF[kind]([box.copy(), box.copy()], nested=nested).get_samples(list(n), seed=seed)
                    for a, b in zip(held, f):
                        ctx.same(a, b, "%s after %s" % (op, plan[:i]))
                elif op in BAD:
                    c = list(BAD[op])
                    ctx.raises(lambda: s.get_samples(c, seed=4), "counts %s are accepted" % c)
                    ctx.require(c == BAD[op], "the refused counts were changed")
                elif op == "save":
                    if held is None:
                        continue
                    s.save_data("kept%d" % i)
                    with open("kept%d.pickle" % i, "rb") as f:
                        d = pickle.load(f)
                    ctx.require(len(d) == len(held), "saved levels")
                    for a, b in zip(d, held):
                        ctx.same(np.asarray(a, float), b, "saved after %s" % plan[:i])
                else:
                    sp = tuple(map(tuple, box)) if op == "tuple space" else 3.0
                    ctx.raises(lambda: doe.MF[kind](sp, num_fidelity=2), "a design space %r is accepted" % (sp,))
                if held is not None:
                    ctx.require(len(s.data) == len(held), "held levels after %s" % plan[:i + 1])
                    for a, b in zip(s.data, held):
                        ctx.same(np.asarray(a, float), b, "held design after %s" % plan[:i + 1])
        ctx.state((kind, nested, tuple(plan)))
        ctx.outcome((kind, nested, held[-1] if held else None))
    return fn


# --------------------------------------------------------- models, criteria
UNKNOWN = [2, -1, 5, 0.5, "hf", None, (0,)]


def criteria(depth, dims):
    cache = {}

    def prepared(kind, d):
        if (kind, d) not in cache:
            cache[kind, d] = pickle.dumps(C27.surrogates("AugmentedEI", kind, d, "wide"))
        (m,), c = pickle.loads(cache[kind, d])
        return m, c

    def fn(ctx):
        kind = ctx.choose("model", ["hk", "sk", "ck"])
        d = ctx.choose("variables", dims)
        names = [n for n in acq.MF if kind in C26.ALLOWED[n]]
        others = [n for n in acq.MF if n not in names]
        ops = [("eval", n, f) for n in names for f in (0, 1)] + [("query", names[0], 0)] + [("predict", "", 0), ("correlation", "", 1)]
        bad = [("eval", n, f) for n in names[:2] for f in UNKNOWN[:3]] + [("eval", names[-1], f) for f in UNKNOWN[3:]] + \
            [("correlation", "", f) for f in UNKNOWN] + [("eval", n, 0) for n in others] + [("train", "", 0)]
        plan = [ctx.choose("refused 0", [("bad",) + b for b in bad])]
        for i in range(1, depth):
            plan.append(ctx.choose("request %d" % i, [("ok",) + o for o in ops] + ([("bad",) + b for b in bad[::5]] if i < depth - 1 else [])))
        m, c = prepared(kind, d)
        X = mod.points(d, 3, c.box, 60)
        fmin = float(c.yh.min())

        def do(a, m, what, n, f):
            if what == "eval":
                return C26.call(a[n], n, X.copy(), m, 2.0, fmin, f)
            if what == "query":
                np.random.seed(6)
                with env.scripted_de(C32.draw_de):
                    x, fid = C27.query(n, a[n], [m], 2.0, fmin)
                return np.append(np.ravel(x), fid)
            if what == "train":
                Xs, Ys = c.data()
                return m.train(Xs, [Ys[0][:-1], Ys[1]])
            if what == "correlation":
                return m._eval_corr(X.copy(), X[:2].copy(), fidelity=f)
            return np.hstack(m.predict(X.copy(), return_std=True) + m.predict_lf(X.copy(), return_std=True))
        a = {n: acq.MF[n]() for n in acq.MF}
        spoiled = False
        for i, (ok, what, n, f) in enumerate(plan):
            ctx.op(what)
            if ok == "bad":
                ctx.raises(lambda: do(a, m, what, n, f), "%s %s with %r is accepted by %s" % (what, n, f, kind))
                spoiled |= what == "train"
                continue
            if spoiled:
                # a refused training leaves no claim but that of a new one
                with env.scripted_minimize(env.fixed_point_minimize(0.8)):
                    m.train(*c.data())
                    fresh = pickle.loads(cache[kind, d])[0][0]
                    fresh.train(*c.data())
                spoiled = False
            elif i == 1 or not any(w == "train" for _, w, _, _ in plan):
                fresh = prepared(kind, d)[0]
            b = {n: acq.MF[n]() for n in acq.MF}
            ctx.close(np.asarray(do(a, m, what, n, f), float), np.asarray(do(b, fresh, what, n, f), float),
                      "%s %s after %s" % (what, n, plan[:i]), 1e-12, 1e-13)
        ctx.state((kind, d, tuple(plan)))
        ctx.outcome((kind, plan[0]))
    return fn


# ---------------------------------------------------------------------- de
STRATEGIES = ["DE/rand/1/bin", "DE/best/1/bin"]
NOT = ["DE/rand/2/bin", "de/rand/1/bin", "", None, "DE/best/1"]


def evolution(depth):
    def fn(ctx):
        plan = [ctx.choose("strategy %d" % i, STRATEGIES + NOT) for i in range(depth)]
        fname = ctx.choose("objective", ["sphere", "waves", "steps"])
        box = np.array([[-5.0, 10.0], [0.0, 15.0]])
        o = ea.DE(5, 3)
        kept = []
        for i, st in enumerate(plan):
            o.strategy = st
            ctx.op("run %s" % st)
            rec = ea.Recorder(ea.FUNCS[fname])
            np.random.seed(i)
            if st in NOT:
                ctx.raises(lambda: o.run_optimizer(rec, 2, box), "strategy %r is accepted" % (st,))
                ctx.raises(lambda: ea.DE(5, 3, strategy=st).run_optimizer(rec, 2, box), "strategy %r is accepted" % (st,))
            else:
                got = o.run_optimizer(rec, 2, box)
                ea.truthful(ctx, "de", rec.calls, got, 5, 3, box)
                np.random.seed(i)
                want = ea.DE(5, 3, strategy=st).run_optimizer(ea.FUNCS[fname], 2, box)
                for k in want[0]:
                    ctx.same(np.asarray(got[0][k], float), np.asarray(want[0][k], float), "%s after %s" % (k, plan[:i]))
                kept.append((got[0], {k: np.array(v, float) for k, v in got[0].items()}))
            for r, s in kept:
                for k in s:
                    ctx.same(np.asarray(r[k], float), s[k], "results returned earlier, after %s" % plan[:i + 1])
        ctx.state((tuple(plan), fname))
        ctx.outcome(tuple(st in NOT for st in plan))
    return fn


# ------------------------------------------------------------------- loops
NAMES = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]
WRONG = ["Kriging", "hierarchicalKriging", "", None, 3, "decreasing counts"]


def loops(depth):
    def fn(ctx):
        p = C32.problem("wide")
        dom = p.input_domain.copy()
        ops = ["run"] + NAMES + WRONG
        plan = [ctx.choose("first", NAMES)] + [ctx.choose("request %d" % i, ops) for i in range(1, depth)]

        def build(prob, name, counts=(3, 5)):
            with contextlib.redirect_stdout(io.StringIO()):
                return bo.MFBO(prob, acq.MFA.AugmentedEI(), num_init=list(counts), surrogate_name=name, seed=5, verbose=False)

        def step(o):
            np.random.seed(2)
            with contextlib.redirect_stdout(io.StringIO()):
                C32.go(o, 1)
        made = []
        with C32.stand_in():
            for i, op in enumerate(plan):
                ctx.op(str(op))
                if op == "run":
                    for o, k, n in made:
                        step(o)
                    made = [(o, k, n + 1) for o, k, n in made]
                elif op in NAMES:
                    made.append((build(p, op), op, 0))
                elif op == "decreasing counts":
                    ctx.raises(lambda: build(p, NAMES[i % 3], (5, 3)), "initial designs of 5 high- and 3 low-fidelity points are accepted")
                else:
                    ctx.raises(lambda: build(p, op), "surrogate %r is accepted" % (op,))
                ctx.same(p.input_domain, dom, "the problem's domain")
            for o, k, n in made:
                f = build(C32.problem("wide"), k)
                for _ in range(n):
                    step(f)
                C32.compare(ctx, C32.snap(f, k), C32.snap(o, k), "%s after %s" % (k, plan))
        ctx.state(tuple(plan))
        ctx.outcome(tuple(op in WRONG for op in plan))
    return fn


def scenarios(tier):
    big = tier == "thorough"
    return [("samplers", samplers(4 if big else 3)), ("criteria", criteria(3, [1, 2] if big else [1])), ("evolution", evolution(4 if big else 3)),
            ("loops", loops(4 if big else 3))]
