"""Multi-fidelity acquisitions against their definitions."""
import numpy as np

from mc import acq, env, mod, ref

BOUNDS = ("4 criteria x their 1-3 surrogate kinds x 1-2 variables x 6 cost ratios x 3 "
          "best values x both fidelities x 30 (72 in thorough) combinations of high- "
          "and low-fidelity predictions, one batch, every window of 1-4 points and "
          "plain vectors; trained surrogates at 12 points; refused fidelities and models; "
          "batches of 130 points, models of 8-25 samples in 3-10 variables, of 3 high- and 150 (320 in "
          "thorough) low-fidelity samples, of 26 + 30; predictions of order 1e-7 to 1e-4; a surrogate "
          "trained three times under one criterion")
ASSUMPTIONS = ["standard deviations are 0 or at least 1e-3 (VFEI; 5e-8 for the others); the prediction and its "
               "standard deviation do not vanish together at both fidelities"]
ALLOWED = dict(AugmentedEI=["hk", "sk", "ck"], VFEI=["hk"], VFLCB=["hk", "sk", "ck"],
               ExtendedPI=["hk", "sk", "ck"])
TH = {"hk": ([0.6, 0.9, 0.4, 0.7, 0.3, 0.5, 0.2, 0.45, 0.1, 0.35], [1.2, 0.7, 0.5, 0.8, 0.6, 0.9, 0.3, 0.55, 0.4, 0.2])}


def answer(d):
    def f(num_dim, b):
        f.n += 1
        low, high = TH["hk"]
        if num_dim > d:
            return np.array([1.1] + high[:d])
        return np.array(low[:d] if f.n % 2 else high[:d])
    f.n = 0
    return f


def model(kind, d, scripted, size=(3, 5)):
    c = mod.Case(kind, d, nh=size[0], nl=size[1], box="unit", nested=False)
    cls = acq.SCRIPTED[kind] if scripted else acq.MODELS[kind]
    m = cls(c.box.copy(), optimizer=env.ScriptedOptimizer([answer(d)]), noise_prior=0.0)
    c.train(m)
    return c, m


def call(a, name, x, m, cr, fmin, fid):
    if name in ("AugmentedEI", "VFLCB"):
        return a.eval(x, mf_surrogate=m, cost_ratio=cr, fidelity=fid)
    if name == "VFEI":
        return a.eval(x, fmin=fmin, mf_surrogate=m, fidelity=fid)
    return a.eval(x, mf_surrogate=m, fmin=fmin, cost_ratio=cr, fidelity=fid)


def want(name, c, x, p, cr, fmin, fid, beta, eff, kappa=(1.0, 1.96)):
    m, s, ml, sl = p
    corr = 1.0 if fid == 0 else cr * sl / (abs(m - ml) + s)
    if name == "AugmentedEI":
        return -(0.0 if s == 0 else ref.ei(eff, m, s)) * corr
    if name == "VFEI":
        t = s if fid == 0 else abs(beta) * sl
        return -(0.0 if t == 0 else ref.ei(fmin, m, t))
    if name == "VFLCB":
        return kappa[0] * m - kappa[1] * (s if fid == 0 else sl * cr)
    pi = 0.0 if s == 0 else ref.cdf((fmin - m) / s)
    th = TH["hk"][1 - fid][:c.d]
    R = ref.corr(ref.unit([x], c.box), ref.unit(c.Xh if fid == 0 else c.Xl, c.box), th)
    return -pi * corr * float(np.prod(1 - R))


def table(H, L, dims=(1, 2), size=(3, 5), crs=(1.0, 4.0, 0.5, 1 / 3, 0.004, 250.0), fmins=(0.2, -1.5, 3.0)):
    def fn(ctx):
        name = ctx.choose("criterion", list(acq.MF))
        kind = ctx.choose("model", ALLOWED[name])
        d = ctx.choose("variables", list(dims))
        cr = ctx.choose("cost ratio", list(crs))
        fmin = ctx.choose("best", list(fmins))
        fid = ctx.choose("fidelity", [0, 1])
        kappa = ctx.choose("factors", [None, [0.5, 3.0], [1.0, 0.0], [0.0, 1.0]]) if name == "VFLCB" else None
        c, m = model(kind, d, True, size)
        beta = -0.8
        if kind == "hk":
            m.beta = np.array([[beta]])
        book = acq.Book()
        # at the samples: the effective best is the least mean + std, which
        # is not the least mean
        S = np.vstack([c.Xh, c.Xl])
        vals = [(1.0, 0.5), (-0.4, 2.0), (0.4 * fmin + 0.6, 0.0)] + [(1.1 + 0.2 * i, 0.3) for i in range(len(c.Xh) - 3)] + [(0.9 + 0.3 * i, 0.1 + 0.2 * i) for i in range(len(c.Xl) - 1)] + [(fmin * 0.3, 0.2)]
        for x, v in zip(S, vals):
            book.put(x, v[0], v[1], v[0] + 0.1, 0.05)
        eff = min(vals, key=lambda v: v[0] + v[1])[0]
        cases = [(a, b, x, y) for (a, b) in H for (x, y) in L if not (b == 0 and x == a)]
        X = np.array([[0.02 + 0.9 * i / len(cases), 0.97 - 0.9 * i / len(cases), 0.3, 0.55,
                       0.2 + 0.3 * i / len(cases), 0.8, 0.4, 0.15,
                       0.9 - 0.2 * i / len(cases), 0.65][:d] for i in range(len(cases))])
        for x, p in zip(X, cases):
            book.put(x, *p)
        m.book = book
        a = acq.MF[name]() if kappa is None else acq.MF[name](kappa=list(kappa))
        w = np.array([want(name, c, x, p, cr, fmin, fid, beta, eff, kappa or (1.0, 1.96)) for x, p in zip(X, cases)])
        keep = X.copy()

        def one(lo, hi, x):
            g = np.asarray(call(a, name, x, m, cr, fmin, fid), float)
            ctx.op("eval")
            ctx.require(g.size == hi - lo, lambda: "%d values for %d points" % (g.size, hi - lo))
            ctx.close(g.ravel(), w[lo:hi], "%s at fidelity %d of %s" % (name, fid, cases[lo:hi][:4]), 1e-5, 1e-11 if name == "ExtendedPI" else 3e-6 * max(1, cr))
        one(0, len(X), X)
        for n in range(1, 5) if len(X) < 100 else (1, 60):
            for i in range(0, len(X) - n + 1, 1 if len(X) < 100 else 7):
                one(i, i + n, X[i:i + n])
        for i in range(len(X)):
            one(i, i + 1, X[i])
            ctx.state((name, kind, d, cr, fmin, fid, str(kappa), cases[i]))
        ctx.same(X, keep, "the criterion changed its argument")
    return fn


def effective(ctx):
    """the effective best at every sample, with close competitors before and after it"""
    kind = ctx.choose("model", ALLOWED["AugmentedEI"])
    d = ctx.choose("variables", [1, 2])
    size = ctx.choose("samples", [(3, 5), (6, 9)])
    c, m = model(kind, d, True, size)
    S = np.vstack([c.Xh, c.Xl])
    k = ctx.choose("effective best", list(range(len(S))))
    lead = ctx.choose("distance of the competitors", [1, 2])
    book = acq.Book()
    vals = [(2.0 + 0.1 * i, 0.3) for i in range(len(S))]
    # less uncertain with a greater mean; more uncertain with a smaller one
    vals[(k + lead) % len(S)], vals[(k - lead) % len(S)] = (0.72, 0.79), (0.3, 1.21)
    vals[k] = (0.5, 1.0)
    for x, v in zip(S, vals):
        book.put(x, v[0], v[1], v[0] + 0.1, 0.05)
    X = np.array([[0.07 + 0.11 * i, 0.93 - 0.09 * i][:d] for i in range(5)])
    P = [(0.1 + 0.2 * i, 0.4, 0.3, 0.6) for i in range(5)]
    for x, p in zip(X, P):
        book.put(x, *p)
    m.book = book
    for fid in (0, 1):
        g = np.ravel(call(acq.MF["AugmentedEI"](), "AugmentedEI", X, m, 2.0, -7.0, fid))
        ctx.op("eval")
        ctx.close(g, np.array([want("AugmentedEI", c, x, p, 2.0, -7.0, fid, 0.0, 0.5) for x, p in zip(X, P)]), "fidelity %d" % fid, 1e-5, 1e-5)
    ctx.state((kind, d, size, k, lead))


def tiny(ctx):
    """predictions that differ by 1e-7 and have standard deviations of that size"""
    name = ctx.choose("criterion", ["AugmentedEI", "ExtendedPI", "VFLCB"])
    kind = ctx.choose("model", ALLOWED[name])
    u = ctx.choose("scale", [1e-7, 3e-6, 1e-4])
    fid = ctx.choose("fidelity", [0, 1])
    c, m = model(kind, 2, True)
    book = acq.Book()
    eff = fmin = 0.0
    book.put(c.Xl[1], eff, 0.0, 1.0, 1.0)
    P = [(a * u, b * u, (a + e) * u, f * u) for a in (-1.0, 0.0, 0.4, 2.0) for b in (0.5, 1.0) for e, f in ((0.3, 0.7), (-2.0, 1.5))]
    X = np.array([[0.03 + 0.055 * i, 0.91 - 0.05 * i] for i in range(len(P))])
    for x, p in zip(X, P):
        book.put(x, *p)
    m.book = book
    g = np.ravel(call(acq.MF[name](), name, X, m, 2.0, fmin, fid))
    ctx.op("eval")
    w = np.array([want(name, c, x, p, 2.0, fmin, fid, 0.0, eff) for x, p in zip(X, P)])
    ctx.close(g, w, "%s of predictions of order %g" % (name, u), 1e-5, 1e-300 if name != "VFLCB" else 1e-13 * u)
    ctx.state((name, kind, u, fid))


def again(ctx):
    """one criterion object, one surrogate object trained twice"""
    name = ctx.choose("criterion", list(acq.MF))
    kind = ctx.choose("model", ALLOWED[name])
    fid = ctx.choose("fidelity", [0, 1])
    old = ctx.choose("first", [0, 1, 2])
    sets = [mod.Case(kind, 2, nh=3 + i, nl=5 + i, box="unit", nested=False, shift=9 * i) for i in range(3)]
    for i, s in enumerate(sets):
        s.yh, s.yl = s.yh + 1.5 * i, s.yl + 1.5 * i
    m = acq.MODELS[kind](sets[0].box.copy(), optimizer=env.ScriptedOptimizer([answer(2)]), noise_prior=0.0)
    a = acq.MF[name]()
    X = mod.points(2, 6, sets[0].box, 60)
    for i in (old, (old + 1) % 3, old):
        sets[i].train(m)
        fmin = float(sets[i].yh.min())
        got = np.ravel(call(a, name, X, m, 2.0, fmin, fid))
        ctx.op("eval")
        ctx.close(got, definition(name, kind, sets[i], m, X, 2.0, fmin, fid), "%s after training on set %d" % (name, i), 1e-4, 1e-5)
        ctx.state((name, kind, fid, old, i))


def definition(name, kind, c, m, X, cr, fmin, fid):
    p = np.hstack(list(m.predict(X, return_std=True)) + list(m.predict_lf(X, return_std=True)))
    ms, ss = m.predict(np.vstack([c.Xh, c.Xl]), return_std=True)
    eff = float(ms[int(np.argmin((ms + ss).ravel()))][0])
    beta = float(np.ravel(m.beta)[0]) if kind == "hk" else 0.0
    return np.array([want(name, c, X[i], p[i], cr, fmin, fid, beta, eff) for i in range(len(X))])


def trained(ctx, dims=(1, 2), size=(3, 5)):
    name = ctx.choose("criterion", list(acq.MF))
    kind = ctx.choose("model", ALLOWED[name])
    d = ctx.choose("variables", list(dims))
    cr = ctx.choose("cost ratio", [1.0, 4.0, 0.004])
    fid = ctx.choose("fidelity", [0, 1])
    c, m = model(kind, d, False, size)
    X = mod.points(d, 12, c.box, 60)
    fmin = float(c.yh.min())
    w = definition(name, kind, c, m, X, cr, fmin, fid)
    a = acq.MF[name]()
    g = np.ravel(call(a, name, X, m, cr, fmin, fid))
    ctx.op("eval")
    ctx.close(g, w, "%s of a trained %s" % (name, kind), 1e-4, 1e-5)
    for i in range(len(X)):
        v = np.ravel(call(a, name, X[i], m, cr, fmin, fid))
        ctx.op("eval")
        ctx.close(v, w[i:i + 1], "%s of one point of a trained %s" % (name, kind), 1e-4, 1e-5)
        ctx.state((name, kind, d, cr, fid, i))


def refused(ctx):
    name = ctx.choose("criterion", list(acq.MF))
    kind = ctx.choose("model", ["hk", "sk", "ck"])
    fid = ctx.choose("fidelity", [0, 1, 2, -1, 5])
    form = ctx.choose("points", [1, 3])
    c, m = model(kind, 1, False)
    X = mod.points(1, form, c.box, 60)
    a = acq.MF[name]()
    run = lambda: call(a, name, X, m, 2.0, 0.1, fid)
    ctx.op("eval")
    if fid not in (0, 1):
        ctx.raises(run, "%s accepts fidelity %r" % (name, fid))
    elif kind not in ALLOWED[name]:
        ctx.raises(run, "%s accepts a %s model" % (name, kind))
    else:
        ctx.require(np.size(run()) == form, "number of values")
    ctx.state((name, kind, fid, form))


def scenarios(tier):
    H = [(-1.0, 0.5), (0.2, 0.0), (0.5, 1.5), (-3.0, 0.02), (4.0, 3.0), (0.19, 0.3)]
    L = [(-1.2, 0.0), (0.7, 0.4), (3.0, 2.0), (0.2, 1e-3), (-9.0, 5.0)]
    if tier == "thorough":
        H += [(-1.5, 0.0), (3.0, 1e-3), (-40.0, 7.0)]
        L += [(0.5, 1.5), (-1.0, 0.5), (25.0, 0.3)]
    big = tier == "thorough"
    HL = [(-3.0 + 0.5 * i, 0.01 * 1.9 ** i) for i in range(12)] + [(0.1, 0.0)]
    LL = [(2.5 - 0.6 * i, 0.02 * 1.7 ** i) for i in range(10)]
    return [("table", table(H, L)), ("trained", trained), ("refused", refused),
            ("large table", table(HL, LL, (3, 6, 10) if big else (9,), (8, 20), (1.0, 40.0), (0.2, -1.5))),
            ("many samples", table(H[:3], L[:3], (2,), (3, 320 if big else 150), (2.0,), (0.2, -1.5))),
            ("tiny", tiny), ("effective", effective), ("again", again),
            ("more high-fidelity samples", table(H[:3], L[:3], (2,), (26, 30), (2.0,), (0.2, 3.0))),
            ("large trained", lambda ctx: trained(ctx, (3, 5, 10) if big else (9,), (10, 25)))]
