"""Histories of predictions and array mutations on trained models."""
import numpy as np

from mc import acq, env, mod

BOUNDS = ("4 model kinds x 2 variables (histories) or 1-2 (batches, storages) x noise 0, 0.2 or estimated; all histories "
          "of 3 (4 in thorough) actions over 11; every batch split of 9 points; "
          "4 storages of the training arrays; one query array refilled in all sequences of 3 contents x queries; the ends of batches of 65-1025 points; batches of 150-3000 points "
          "against parts of 7, 64 and 250 in 1-5 variables; points at every place of a batch, "
          "5-30 samples, 3 hyper-parameters down to the nearly singular")
ASSUMPTIONS = ["a batch and its points one by one agree up to rounding, which the "
               "condition of the correlation matrix magnifies"]
ACTS = ["mean", "std", "other points", "other points std", "one point",
        "low fidelity", "sample points", "scribble on training arrays",
        "scribble on results", "frozen query", "likelihood"]


def cases(ctx, dims=(1, 2)):
    kind = ctx.choose("model", mod.KINDS)
    d = ctx.choose("variables", dims)
    noise = ctx.choose("noise", [0.0, 0.2, None])
    box = ctx.choose("box", ["wide", "unit"])
    return mod.Case(kind, d, noise=noise, fam="wave" if d == 1 else "big", box=box)


def compare(ctx, m, Q, base, mf, what):
    got = mod.everything(ctx, m, Q, mf)
    for n, a, b in zip(mod.NAMES, got, base):
        ctx.close(a, b, "%s %s" % (n, what), 1e-12, 1e-13 * (1 + float(np.max(np.abs(b)))))
    ctx.close(base[0], base[2], "mean with and without std", 1e-10, 1e-12 * (1 + float(np.max(np.abs(base[0])))))


def held(m, mf, Q):
    """what else the model tells about its data: samples, responses where it
    gives them out, and criteria computed from them"""
    out = {}
    for n in ("_get_sample_hf", "_get_sample_lf", "sample_yh", "sample_yl") if mf else ("sample_x", "sample_y"):
        if getattr(m, n, None) is not None:
            out[n] = np.array(getattr(m, n), float)
    if mf:
        for f in (0, 1):
            out["augmented EI %d" % f] = np.array(acq.MF["AugmentedEI"]().eval(Q, mf_surrogate=m, cost_ratio=2.0, fidelity=f), float)
            out["extended PI %d" % f] = np.array(acq.MF["ExtendedPI"]().eval(Q, mf_surrogate=m, fmin=0.3, cost_ratio=2.0, fidelity=f), float)
    else:
        for n in acq.SF:
            out[n] = np.array(acq.SF[n]().eval(Q, m), float)
        out["CEI"] = np.array(acq.SCA.CEI().eval(Q, m, [m]), float)
    return out


def histories(depth, dims):
    def fn(ctx):
        c = cases(ctx, dims)
        acts = [ctx.choose("act%d" % i, ACTS) for i in range(depth)]
        m = c.build()
        args = c.data()
        m.train(*args)
        ctx.op("train")
        flat = [args[0][0], args[0][1], args[1][0], args[1][1]] if c.mf else list(args)
        keep = [a.copy() for a in ([c.Xh, c.Xl, c.yh, c.yl] if c.mf else [c.Xh, c.yh])]
        for a, b in zip(flat, keep):
            ctx.same(a, b, "training changed an array of the caller")
        Q = c.q()
        base = mod.everything(ctx, m, Q, c.mf)
        other = mod.points(c.d, 3, c.box, 77)
        told = held(m, c.mf, other)
        for i, a in enumerate(acts):
            if a == "mean":
                m.predict(Q.copy())
            elif a == "std":
                m.predict(Q.copy(), return_std=True)
            elif a == "other points":
                m.predict(other.copy())
            elif a == "other points std":
                m.predict(other.copy(), return_std=True)
            elif a == "one point":
                m.predict(other[:1].copy(), return_std=True)
            elif a == "low fidelity":
                if c.mf:
                    m.predict_lf(other.copy(), return_std=True)
                    m.predict_lf(other.copy())
            elif a == "sample points":
                # the caller's own training array, whatever it holds now
                for f in flat[:2] if c.mf else flat[:1]:
                    for g in [m.predict, m.predict_lf] if c.mf else [m.predict]:
                        for u, v in zip(g(f, return_std=True), g(f.copy(), return_std=True)):
                            ctx.close(u, v, "prediction at the training array itself after %s" % acts[:i + 1], 1e-12, 1e-13 * (1 + float(np.max(np.abs(v)))))
            elif a == "scribble on training arrays":
                for f in flat:
                    f *= 3.0
                    f += 11.0
            elif a == "scribble on results":
                for r in mod.everything(ctx, m, Q, c.mf):
                    r *= 0
                u = m.predict(Q.copy(), return_std=True)
                u[0][:] = 5.0
                u[1][:] = 5.0
                m.predict(Q.copy())[:] = -1.0
            elif a == "frozen query":
                F = other.copy()
                F.setflags(write=False)
                m.predict(F, return_std=True)
                m.predict(F)
            elif a == "likelihood":
                th = np.full((2, len(np.ravel(m.opt_param))), 0.9) if hasattr(m, "opt_param") else None
                if th is not None and c.noise is not None and hasattr(m, "_logLikelihood"):
                    m._logLikelihood(th)
            ctx.op(a)
            q = Q.copy()
            compare(ctx, m, q, base, c.mf, "after %s" % acts[:i + 1])
            ctx.same(q, Q, "predicting changed the query points")
        now = held(m, c.mf, other)
        for n, v in told.items():
            ctx.close(now[n], v, "%s after %s" % (n, acts), 1e-12, 1e-13 * (1 + float(np.max(np.abs(v)))))
        ctx.state((c.kind, c.d, c.noise, c.box_name, tuple(acts)))
        ctx.outcome((c.kind, base[0]))
    return fn


def batches(ctx):
    """every contiguous batch of the query points, and every single point"""
    c = cases(ctx)
    fam = ctx.choose("response", ["kink", "small"])
    c = mod.Case(c.kind, c.d, noise=c.noise, fam=fam, box=c.box_name)
    m = c.train(c.build())
    Q = c.q()
    base = mod.everything(ctx, m, Q, c.mf)
    tol = [1e-6 * (1e-9 + float(np.max(np.abs(b - np.mean(b))))) + 1e-9 * float(np.std(c.yh)) for b in base]
    n = len(Q)
    for i in range(n):
        for j in range(i + 1, n + 1):
            got = mod.everything(ctx, m, Q[i:j], c.mf)
            for k, (name, a, b) in enumerate(zip(mod.NAMES, got, base)):
                if "std" in name and "without" not in name:
                    # squared: a zero std is the root of a rounding error
                    ctx.close(a ** 2, b[i:j] ** 2, "%s of batch %d:%d" % (name, i, j), 1e-6, 1e-7 * float(np.max(b)) ** 2 + 1e-9 * float(np.std(c.yh)) ** 2)
                else:
                    ctx.close(a, b[i:j], "%s of batch %d:%d" % (name, i, j), 1e-7, tol[k])
            ctx.state((c.kind, c.d, c.noise, c.box_name, fam, i, j))
    rev = mod.everything(ctx, m, Q[::-1], c.mf)
    for k, (name, a, b) in enumerate(zip(mod.NAMES, rev, base)):
        if "std" not in name or "without" in name:
            ctx.close(a[::-1], b, "%s of the reversed batch" % name, 1e-7, tol[k])


def many(sizes, dims):
    """batches far larger than the training data agree with their parts"""
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        d = ctx.choose("variables", dims)
        noise = ctx.choose("noise", [0.0, 0.2, None])
        fam = ctx.choose("response", ["wave", "big"])
        n = ctx.choose("points", sizes)
        c = mod.Case(kind, d, nh=4 if d == 1 else 8, nl=9 if d == 1 else 25, noise=noise, fam=fam)
        m = c.train(c.build())
        Q = np.vstack([mod.points(d, n - len(c.Xh), c.box, 90), c.Xh])
        keep = Q.copy()
        base = mod.everything(ctx, m, Q, c.mf)
        compare(ctx, m, Q, base, c.mf, "asked again")
        for part in (7, 64, 250):
            for i in range(0, n, part if part > 7 else 119):
                got = mod.everything(ctx, m, Q[i:i + part], c.mf)
                for name, a, b in zip(mod.NAMES, got, base):
                    w = b[i:i + part]
                    if "std" in name and "without" not in name:
                        ctx.close(a ** 2, w ** 2, "%s of %d of %d points" % (name, part, n), 1e-6,
                                  1e-7 * float(np.max(b)) ** 2 + 1e-9 * float(np.std(c.yh)) ** 2)
                    else:
                        ctx.close(a, w, "%s of %d of %d points" % (name, part, n), 1e-7,
                                  1e-6 * float(np.std(b)) + 1e-9 * float(np.std(c.yh)))
        ctx.same(Q, keep, "predicting changed the query points")
        ctx.state((kind, d, noise, fam, n))
    return fn


def place(sizes, dims):
    """the prediction at a point does not depend on its place in the batch,
    also where the model is smooth and sensitive"""
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        d = ctx.choose("variables", dims)
        n = ctx.choose("samples", sizes)
        th = ctx.choose("hyper-parameter", [-1.0, 0.0, 0.7])
        noise = ctx.choose("noise", [0.0, 1e-4])
        fam = ctx.choose("response", ["wave", "big"])
        c = mod.Case(kind, d, nh=n, nl=n + n // 2, noise=noise, fam=fam)

        def answer(num_dim, b):
            return np.where(np.abs(np.array(b, float)[:, 0]) < 1.9, c.answer(num_dim, b), th)
        c.opt = lambda: env.ScriptedOptimizer([answer])
        m = c.train(c.build())
        q = mod.points(d, 5, c.box, 90)
        pad = mod.points(d, len(c.Xh) + 8, c.box, 200)
        s = float(np.std(c.yh))
        tol = 2e-4 if th < 0 else 1e-6
        for lf in [False, True] if c.mf else [False]:
            f = m.predict_lf if lf else m.predict
            what = "low-fidelity " if lf else ""
            want = [np.array(a, float) for a in f(np.vstack([pad, pad, q]), return_std=True)]
            ctx.op("predict")
            mean, sd = want[0][-5:], want[1][-5:]
            for i in list(range(len(c.Xh) + 2)) + [len(pad)]:
                B = np.vstack([pad[:i], q, pad[i:]]) if i < len(pad) else q
                j = i if i < len(pad) else 0
                a, b = f(B.copy(), return_std=True)
                e = f(B.copy())
                ctx.op("predict", 2)
                w = "%sof a point at place %d of %d" % (what, j, len(B))
                ctx.close(a[j:j + 5], mean, "mean " + w, 0, tol * s)
                ctx.close(e[j:j + 5], mean, "mean without std " + w, 0, tol * s)
                ctx.close(b[j:j + 5] ** 2, sd ** 2, "variance " + w, 1e-6, (tol if th < 0 else 1e-8) * s ** 2)
                ctx.state((kind, d, n, th, noise, fam, lf, i))
        ctx.outcome((kind, mean))
    return fn


def last(sizes):
    """the ends of batches of many sizes"""
    def fn(ctx):
        kind = ctx.choose("model", mod.KINDS)
        n = ctx.choose("points", sizes)
        c = mod.Case(kind, 1, nh=4, nl=7, noise=0.2)
        m = c.train(c.build())
        Q = mod.points(1, n, c.box, 90)
        want = mod.everything(ctx, m, Q[-3:], c.mf)
        for name, a, b in zip(mod.NAMES, mod.everything(ctx, m, Q, c.mf), want):
            ctx.close(a[-3:], b, "%s at the end of %d points" % (name, n), 1e-7, 1e-8)
        ctx.state((kind, n))
    return fn


def often(n):
    """many predictions by one model"""
    def fn(ctx):
        c = cases(ctx)
        m = c.train(c.build())
        Q = mod.points(c.d, 6, c.box, 60)
        size = ctx.choose("points", [1, 3, 6])
        want = mod.everything(ctx, m, Q[:size], c.mf)
        for i in range(n):
            compare(ctx, m, Q[:size], want, c.mf, "at request %d" % i)
        ctx.state((c.kind, c.d, c.noise, c.box_name, size))
    return fn


def reused(ctx):
    """one query array, its contents replaced between predictions"""
    c = cases(ctx)
    m = c.train(c.build())
    n = 5
    P = [mod.points(c.d, n, c.box, s) for s in (50, 80, 120)]
    want = [mod.everything(ctx, m, p, c.mf) for p in P]
    seq = [ctx.choose("contents %d" % i, [0, 1, 2]) for i in range(3)]
    how = [ctx.choose("query %d" % i, ["mean", "std", "low"] if c.mf else ["mean", "std"]) for i in range(3)]
    q = np.empty((n, c.d))
    for i, h in zip(seq, how):
        q[:] = P[i]
        f = m.predict_lf if h == "low" else m.predict
        got = list(f(q, return_std=True)) if h != "mean" else [f(q)]
        base = want[i][3:] if h == "low" else want[i]
        ctx.op(h)
        for a, b in zip(got, base):
            ctx.close(a, b, "%s with contents %s of the same array" % (h, seq), 1e-9, 1e-10 * (1 + float(np.max(np.abs(b)))))
    ctx.same(q, P[seq[-1]], "predicting changed the query points")
    ctx.state((c.kind, c.d, c.noise, tuple(seq), tuple(how)))


def storage(ctx):
    """training arrays in any storage give the same model and stay unchanged"""
    c = cases(ctx)
    how = ctx.choose("storage", ["fortran", "read-only", "view", "shared"])
    base = mod.everything(ctx, c.train(c.build()), c.q(), c.mf)

    def conv(a):
        if how == "fortran":
            return np.asfortranarray(a.copy())
        if how == "read-only":
            a = a.copy()
            a.setflags(write=False)
            return a
        if how == "view":
            w = np.full((a.shape[0] * 2, a.shape[1] + 1), 3.3)
            w[::2, 1:] = a
            return w[::2, 1:]
        return a
    X, Y = c.data()
    X = [conv(a) for a in X] if c.mf else conv(X)
    Y = [conv(a) for a in Y] if c.mf else conv(Y)
    kx = [a.copy() for a in X] if c.mf else X.copy()
    m = c.build()
    m.train(X, Y)
    ctx.op("train " + how)
    compare(ctx, m, c.q(), base, c.mf, "with training arrays " + how)
    for a, b in zip(X, kx):
        ctx.same(a, b, "training changed an array of the caller")
    if c.mf:
        ctx.require(len(X) == 2 and len(Y) == 2, "training changed a list of the caller")
    ctx.state((c.kind, c.d, c.noise, how))


def integers(ctx):
    """integer samples and responses give the model of the same values as floats"""
    kind = ctx.choose("model", mod.KINDS)
    d = ctx.choose("variables", [1, 2])
    noise = ctx.choose("noise", [0.0, 2.0, None])
    what = ctx.choose("integers", ["samples", "responses", "both", "32 bit", "unsigned"])
    box = np.array([[-300, 500], [0, 700]][:d])
    if what == "unsigned":
        box = box - box[:, :1]
    c = mod.Case(kind, d, noise=noise)
    c.box = box.astype(float)
    X = np.round(mod.points(d, 9, c.box))
    y = np.round(200 * mod.response("wave", X, c.box))
    if c.mf:
        c.Xl, c.Xh, c.yl, c.yh = X, X[:4], np.round(0.6 * y + 0.1 * X[:, :1]), y[:4]
    else:
        c.Xh, c.yh = X, y
    t = {"32 bit": np.int32, "unsigned": np.uint16}.get(what, np.int64)
    Q = np.round(mod.points(d, 5, c.box, 40))
    base = mod.everything(ctx, c.train(c.build()), Q, c.mf)
    shift = float(min(v.min() for v in ([c.yh, c.yl] if c.mf else [c.yh])))
    if what == "unsigned" and shift < 0:
        y0 = -shift
        c.yh = c.yh + y0
        if c.mf:
            c.yl = c.yl + y0
        base = mod.everything(ctx, c.train(c.build()), Q, c.mf)
    X, Y = c.data()
    iX = (lambda a: a.astype(t)) if what != "responses" else (lambda a: a)
    iY = (lambda a: a.astype(t)) if what != "samples" else (lambda a: a)
    m = c.build(design_space=box.copy() if what == "both" else c.box.copy())
    m.train([iX(a) for a in X] if c.mf else iX(X), [iY(a) for a in Y] if c.mf else iY(Y))
    ctx.op("train " + what)
    compare(ctx, m, iX(Q), base, c.mf, "with integer " + what)
    ctx.state((kind, d, noise, what))


def scenarios(tier):
    if tier == "thorough":
        h = [("histories", histories(3, [1, 2])), ("deep histories", histories(4, [2]))]
    else:
        h = [("histories", histories(3, [2]))]
    big = tier == "thorough"
    return h + [("batches", batches), ("storage", storage), ("often", often(250 if big else 60)), ("integers", integers), ("reused array", reused),
                ("ends", last([65, 101, 129, 201, 257, 501, 513, 1001, 1025, 2501, 4099] + ([2001, 2049, 3001, 5003] if big else []))),
                ("places", place([5, 12, 30] if big else [5, 20], [1, 2, 3] if big else [1, 2])),
                ("many points", many([150, 300, 1000, 3000] if big else [300, 1100],
                                     [1, 2, 3, 5] if big else [1, 4]))]
