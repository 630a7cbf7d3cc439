"""Low-fidelity predictions of the multi-fidelity models, sample accessors."""
import numpy as np

from mc import env, mod, ref

BOUNDS = ("3 model kinds x 1-3 variables x 3 boxes (and boxes of width 1e-7 to 2e12) x 3 responses x noise 0, small, "
          "large, estimated x 2 hyper-parameter vectors x 5 high-fidelity data sets "
          "(sizes 3-6, nested and separate, other values) on one object or a fresh one; "
          "6 low-fidelity data sets (same, other values, other points, reordered, more, "
          "fewer) in turn on one object; also 30-33 low-fidelity samples in 4-6 variables")
ASSUMPTIONS = ["condition number below 1e7"]
HIGH = ["plain", "more", "scaled", "shifted", "separate"]


def high(c, name):
    nh = 6 if name == "more" else 3
    X = mod.points(c.d, nh, c.box, 40) if name == "separate" else c.Xl[:nh].copy()
    y = mod.response("wave", X, c.box)
    if name == "scaled":
        y = 400.0 * y[::-1]
    if name == "shifted":
        y = y ** 3 - 1e3
    return X, y


def lower(c, name):
    """low-fidelity data; most keep the number of samples"""
    X, y = c.Xl.copy(), c.yl.copy()
    if name == "values":
        y = 2.5 * y[::-1] - 1.0
    elif name == "one value":
        y[-1] += 0.8 * np.std(y)
    elif name == "points":
        X = mod.points(c.d, len(X), c.box, 60)
        y = mod.low(c.fam, X, c.box)
    elif name == "reordered":
        X, y = X[::-1].copy(), y[::-1].copy()
    elif name == "more":
        X = mod.points(c.d, len(X) + 3, c.box, 0)
        y = mod.low(c.fam, X, c.box)
    elif name == "fewer":
        X, y = X[:-2].copy(), y[:-2].copy()
    return X, y


LOW = ["same", "values", "one value", "points", "reordered", "more", "fewer"]
SEQ = [[(a, "same")] for a in HIGH] + [
    [("plain", "same"), ("more", "same")], [("scaled", "same"), ("separate", "same")],
    [("more", "same"), ("plain", "same")]]
RETRAIN = [[("plain", a), ("more" if a == "points" else "plain", b)]
           for a in LOW for b in LOW if a != b and "same" in (a, b)] + [
    [("plain", "values"), ("scaled", "points"), ("plain", "values")],
    [("plain", "more"), ("plain", "fewer"), ("more", "same")]]


def run(boxes, fams, seq, dims=(1, 2, 3), size=(3, 8)):
    """one object, trained on each pair of data sets in turn"""
    def fn(ctx):
        kind = ctx.choose("model", ["hk", "sk", "ck"])
        d = ctx.choose("variables", list(dims))
        box = ctx.choose("box", boxes)
        fam = ctx.choose("response", fams)
        level = ctx.choose("noise", [0.0, 0.01, 0.7, None])
        th = ctx.choose("log theta", [[1.0, 0.9, 0.8, 0.6, 0.7, 1.1, 0.5, 0.4, 0.3, 0.2], [1.7, 1.2, 1.5, 0.9, 1.3, 0.2, 0.8, 1.0, 0.6, 0.1]])[:d]
        names = ctx.choose("data sets", seq)
        c = mod.Case(kind, d, nh=size[0], nl=size[1], box=box, fam=fam)
        c.fam = fam

        def answer(num_dim, b):
            b = np.array(b, float)
            if b[0, 0] > 0:                     # co-kriging: scale factor first
                return np.array([1.2] + ([0.1] if level is None else []) + [1.0] * d)
            return np.array(list(th) + ([0.09] if level is None else []))
        c.noise = None if level is None else level * float(np.std(c.yl))
        m = c.build(optimizer=env.ScriptedOptimizer([answer]))
        Q = np.vstack([c.q(), c.Xl])
        U = ref.unit(Q, c.box)
        for name in names:
            Xh, yh = high(c, name[0])
            Xl, yl = lower(c, name[1])
            sl = float(np.std(yl))
            m.train([Xh.copy(), Xl.copy()], [yh.copy(), yl.copy()])
            ctx.op("train")
            sh, mh = float(np.std(yh)), float(np.mean(yh))
            kw = dict(mean=mh, std=sh) if kind == "ck" else {}
            noise = c.noise if level is not None else 0.09 * (sh if kind == "ck" else sl)
            if kind == "ck" and level == 0.0:
                kw = {}                          # independent of the high fidelity
            k = ref.gp(Xl, yl, c.box, th, "ordinary", noise, **kw)
            if k.cond > 1e7:
                ctx.outcome("skipped")
                return
            mean, sd = mod.predict(ctx, m, Q, lf=True)
            plain = mod.predict(ctx, m, Q, std=False, lf=True)
            amp = sl + float(np.max(np.abs(k.mean(U) - np.mean(yl))))
            tol = amp * (1e-8 + 3e-14 * k.cond) + k.jitter_tol() + 1e-11 * (abs(mh) + float(np.max(np.abs(yl)))) 
            for a, w in ((mean, "mean"), (plain, "mean without std")):
                mod.column(ctx, a, len(Q), "low-fidelity " + w)
                ctx.close(a.ravel(), k.mean(U), "low-fidelity %s with data %s" % (w, name), 0, tol)
            mod.column(ctx, sd, len(Q), "low-fidelity std")
            ev = k.epi_var(U)
            vt = (float(np.max(np.abs(ev))) + noise ** 2 + 1e-30) * (1e-7 + 3e-14 * k.cond) + 1e-8 * k.sig2 * k.s ** 2
            ctx.close(sd.ravel() ** 2, np.maximum(ev, 0) + noise ** 2,
                      "low-fidelity variance with data %s" % (name,), 1e-6, vt)
            ctx.require(int(m._num_xh) == len(Xh) and int(m._num_xl) == len(Xl), "sample counts %s %s" % (m._num_xh, m._num_xl))
            ctx.same(m._get_sample_hf, Xh, "high-fidelity samples")
            ctx.close(m._get_sample_lf, Xl, "low-fidelity samples", 1e-13, 1e-13)
        ctx.state((kind, d, box, fam, level, tuple(th), tuple(names)))
        ctx.outcome(mean)
    return fn


def scenarios(tier):
    odd = ("slim and vast boxes", run(list(mod.ODD), ["wave"], SEQ[:3], (1, 2)))
    if tier == "thorough":
        fams = ["wave", "big", "small", "kink"]
        return [odd, ("low fidelity", run(list(mod.BOX), fams, SEQ)),
                ("retraining", run(list(mod.BOX), fams, RETRAIN)),
                ("large", run(["wide", "neg"], fams[:2], SEQ + RETRAIN, (4, 6, 10), (8, 30)))]
    return [odd, ("low fidelity", run(["wide", "neg"], ["wave", "big", "small"], SEQ)),
            ("retraining", run(["wide"], ["wave", "big"], RETRAIN)),
            ("large", run(["wide"], ["wave"], SEQ[5:] + RETRAIN, (5, 9), (8, 30)))]
