"""Independent reference of the test problems: scalar formulas with math only."""
from math import cos, exp, log, pi, sin, sqrt


def forrester(x):
    return (6 * x[0] - 2) ** 2 * sin(12 * x[0] - 4)


def branin(x):
    u, v = x
    return (v - 5.1 / (4 * pi ** 2) * u * u + 5 / pi * u - 6) ** 2 \
        + 10 * (1 - 1 / (8 * pi)) * cos(u) + 10


def goldprice(x):
    u, v = x
    a = 1 + (u + v + 1) ** 2 * (19 - 14 * u + 3 * u * u - 14 * v
                                + 6 * u * v + 3 * v * v)
    b = 30 + (2 * u - 3 * v) ** 2 * (18 - 32 * u + 12 * u * u + 48 * v
                                     - 36 * u * v + 27 * v * v)
    return a * b


def sixhump(x):
    u, v = x
    return 4 * u ** 2 - 2.1 * u ** 4 + u ** 6 / 3 + u * v - 4 * v ** 2 + 4 * v ** 4


def sasena(x):
    u, v = x
    return 2 + 0.01 * (v - u * u) ** 2 + (1 - u) ** 2 + 2 * (2 - v) ** 2 \
        + 7 * sin(0.5 * u) * sin(0.7 * u * v)


A3 = [(3, 10, 30), (0.1, 10, 35)] * 2
P3 = [(.3689, .1170, .2673), (.4699, .4387, .7470),
      (.1091, .8732, .5547), (.03815, .5743, .8828)]
A6 = [(10, 3, 17, 3.5, 1.7, 8), (.05, 10, 17, .1, 8, 14),
      (3, 3.5, 1.7, 10, 17, 8), (17, 8, .05, 10, .1, 14)]
P6 = [(.1312, .1696, .5569, .0124, .8283, .5886),
      (.2329, .4135, .8307, .3736, .1004, .9991),
      (.2348, .1451, .3522, .2883, .3047, .6650),
      (.4047, .8828, .8732, .5743, .1091, .0381)]


def _hart(x, A, P, c, scale=None):
    s = scale or [1] * len(x)
    return sum(ci * exp(-sum(a * (k * t - p) ** 2
                             for a, k, t, p in zip(ar, s, x, pr)))
               for ci, ar, pr in zip(c, A, P))


def hart3(x):
    return -_hart(x, A3, P3, (1, 1.2, 3, 3.2))


def hart6(x):
    return -log(_hart(x, A6, P6, (1, 1.2, 3, 3.2)))


def hart6_lf(x):
    return -log(_hart(x, A6, P6, (1.1, .8, 2.5, 3), (.75, 1, .8, 1.3, .7, 1.1)))


def hart3_lf(x):
    a, b, c = x
    return .585 - .324 * a - .379 * b - .431 * c - .208 * a * b + .326 * a * c \
        + .193 * b * c + .225 * a * a + .263 * b * b + .274 * c * c


def thevenot(m=5, beta=15):
    def f(x):
        p, q = 1.0, 1.0
        for t in x:
            p *= t * t
            q *= cos(t) ** 2
        return exp(-sum((t / beta) ** (2 * m) for t in x)) - 2 * exp(-p) * q
    return f


def ackley(a=20, b=0.2, c=2 * pi):
    def f(x):
        n = len(x)
        return -a * exp(-b * sqrt(sum(t * t for t in x) / n)) \
            - exp(sum(cos(c * t) for t in x) / n) + a + exp(1)
    return f


def ackley2(x):
    return -200 * exp(-0.2 * sqrt(x[0] ** 2 + x[1] ** 2))


def branin_mod(x):
    return branin((15 * x[0] - 5, 15 * x[1])) + 5 * x[0]


def branin1_con(x):
    return (0.2 - x[0] * x[1],)


def branin2_con(x):
    u, v = 2 * x[0] - 1, 2 * x[1] - 1
    return (6 - sixhump((u, v)) - 3 * sin(6 * (1 - u)) - 3 * sin(6 * (1 - v)),)


def disc_lf(x):
    t = x[0]
    base = 0.5 * forrester(x) + 10 * (t - 0.5) - 5
    return base if t <= 0.5 else base + 3


def disc_hf(x):
    return 2 * disc_lf(x) - 20 * x[0] + 20 + (4 if x[0] > 0.5 else 0)


def sixhump_lf(x):
    return sixhump((.7 * x[0], .7 * x[1])) - x[0] * x[1] - 15


def boha(x):
    u, v = x
    return u * u + 2 * v * v - .3 * cos(3 * pi * u) - .4 * cos(4 * pi * v) + .7


def booth(x):
    u, v = x
    return (u + 2 * v - 7) ** 2 + (2 * u + v - 5) ** 2


def himmel(x):
    u, v = x
    return (u * u + v - 11) ** 2 + (u + v * v - 7) ** 2


def borehole(a, b):
    def f(x):
        rw, r, tu, hu, tl, hl, el, kw = x
        g = log(r / rw)
        return a * tu * (hu - hl) / (g * (b + 2 * el * tu / (g * rw * rw * kw)
                                          + tu / tl))
    return f


def currin(x):
    u, v = x
    w = 1.0 if v <= 1e-8 else 1 - exp(-1 / (2 * v))
    return w * (2300 * u ** 3 + 1900 * u ** 2 + 2092 * u + 60) \
        / (100 * u ** 3 + 500 * u ** 2 + 4 * u + 20)


def currin_lf(x):
    u, v = x
    d = 0.05
    return sum(currin((u + s * d, max(0.0, v + t * d)))
               for s in (1, -1) for t in (1, -1)) / 4


def park_a(x):
    a, b, c, d = x
    q = (b + c * c) * d
    first = sqrt(q) / 2 if a == 0 else a / 2 * (sqrt(1 + q / a ** 2) - 1)
    return first + (a + 3 * d) * exp(1 + sin(c))


def park_a_lf(x):
    a, b, c, d = x
    return (1 + sin(a) / 10) * park_a(x) - 2 * a + b * b + c * c + 0.5


def park_b(x):
    a, b, c, d = x
    return 2 / 3 * exp(a + b) - d * sin(c) + c


def park_b_lf(x):
    return 1.2 * park_b(x) - 1


def _one(f):
    return lambda x: (f(x),)


U = [0, 1]
F_LF = {
    "Forrester_1a": lambda x: forrester(x) - 5,
    "Forrester_1b": lambda x: .5 * forrester(x) + 10 * (x[0] - .5) - 5,
    "Forrester_1c": lambda x: forrester((x[0] + .2,)),
}


def _row(module, cls, box, fns, kw=None, optimum=None, minimisers=None,
         cost=None, vary=False):
    return dict(module=module, cls=cls, box=[list(map(float, b)) for b in box],
                fns={k: f if k == "f_cons" else _one(f) for k, f in fns.items()},
                kw=kw or {}, optimum=optimum, minimisers=minimisers, cost=cost,
                vary=vary)


def table():
    """name -> row: class, published domain, formulas, optimum (value,
    tolerance on it) and minimisers."""
    T = {}
    sf = "mfpml.problems.sf_functions"
    cf = "mfpml.problems.sf_cons_functions"
    mf = "mfpml.problems.mf_functions"
    sqrt2 = sqrt(2)
    T["Forrester"] = _row(sf, "Forrester", [U], dict(f=forrester), optimum=(-6.02074, 1e-5))
    T["Branin"] = _row(sf, "Branin", [[-5, 10], [0, 15]], dict(f=branin), optimum=(0.397887, 1e-5))
    T["GoldPrice"] = _row(sf, "GoldPrice", [[-2, 2]] * 2, dict(f=goldprice), optimum=(3.0, 1e-6))
    T["Sixhump"] = _row(sf, "Sixhump", [[-3, 3], [-2, 2]], dict(f=sixhump), optimum=(-1.0316, 1e-4))
    T["Sasena"] = _row(sf, "Sasena", [[0, 5]] * 2, dict(f=sasena), optimum=(-1.4565, 2e-4))
    T["Hartman3"] = _row(sf, "Hartman3", [U] * 3, dict(f=hart3), optimum=(-3.86278, 2e-4))
    T["Hartman6"] = _row(sf, "Hartman6", [U] * 6, dict(f=hart6), optimum=(-log(3.32236801), 1e-5))
    for d in (1, 2, 3, 5):
        for m, b in ((5.0, 15), (1, 2.0), (3, 7.5), (0, 4.0)):
            kw = dict(num_dim=d) if (m, b) == (5.0, 15) else dict(num_dim=d, m=m, beta=b)
            T["Thevenot%d-m%g-b%g" % (d, m, b)] = _row(
                sf, "Thevenot", [[-2 * pi, 2 * pi]] * d,
                dict(f=thevenot(m, b)), kw, optimum=(-1.0 if m else exp(-d) - 2, 1e-9), vary=True)
        for a, b, c in ((20, .2, 2 * pi), (10, .5, pi), (3.0, 1, 1.0), (0.0, .3, 2.0), (4.0, 0.0, 0.0)):
            kw = dict(num_dim=d) if a == 20 else dict(num_dim=d, a=a, b=b, c=c)
            T["Ackley%d-a%g-b%g" % (d, a, b)] = _row(
                sf, "Ackley", [[-32, 32]] * d, dict(f=ackley(a, b, c)), kw,
                optimum=(0.0, 1e-9), vary=True)
    T["AckleyN2"] = _row(sf, "AckleyN2", [[-32, 32]] * 2, dict(f=ackley2), optimum=(-200., 1e-9))
    T["Branin_1"] = _row(cf, "Branin_1", [U] * 2, dict(f=branin_mod, f_cons=branin1_con), optimum=(5.5757, 5e-4))
    T["Branin_2"] = _row(cf, "Branin_2", [U] * 2, dict(f=branin_mod, f_cons=branin2_con), optimum=(12.001, 0.06))
    for k, g in F_LF.items():
        T[k] = _row(mf, k, [U], dict(hf=forrester, lf=g), optimum=(-6.02074, 1e-5), cost=[1.0, .2])
    T["mf_Hartman3"] = _row(mf, "mf_Hartman3", [U] * 3, dict(hf=hart3, lf=hart3_lf), optimum=(-3.86278, 2e-4), cost=[1.0, .2])
    T["mf_Sixhump"] = _row(mf, "mf_Sixhump", [[-2, 2]] * 2, dict(hf=sixhump, lf=sixhump_lf), optimum=(-1.0316, 1e-4), cost=[1.0, .2])
    T["mf_Hartman6"] = _row(mf, "mf_Hartman6", [U] * 6, dict(hf=hart6, lf=hart6_lf), optimum=(-log(3.32236801), 1e-5), cost=[1.0, .1])
    T["mf_Discontinuous"] = _row(mf, "mf_Discontinuous", [U], dict(hf=disc_hf, lf=disc_lf))
    s8 = lambda x: sin(8 * pi * x[0])
    T["ContinuousNonlinearCorrelation1D"] = _row(mf, "ContinuousNonlinearCorrelation1D", [U], dict(hf=lambda x: (x[0] - sqrt2) * s8(x) ** 2, lf=s8))
    T["PhaseShiftedOscillations"] = _row(mf, "PhaseShiftedOscillations", [U], dict(hf=lambda x: x[0] ** 2 + sin(8 * pi * x[0] + pi / 10) ** 2, lf=s8))
    T["mf_Bohachevsky"] = _row(mf, "mf_Bohachevsky", [[-5, 5]] * 2, dict(hf=boha, lf=lambda x: boha((.7 * x[0], x[1])) + x[0] * x[1] - 12), optimum=(0.0, 1e-9))
    T["mf_Booth"] = _row(mf, "mf_Booth", [[-10, 10]] * 2, dict(hf=booth, lf=lambda x: booth((.4 * x[0], x[1])) + 1.7 * x[0] * x[1] - x[0] + 2 * x[1]), optimum=(0.0, 1e-9))
    bb = [[.05, .15], [100, 50000], [63070, 115600], [990, 1110], [63.1, 116], [700, 820], [1120, 1680], [9855, 12045]]
    T["mf_Borehole"] = _row(mf, "mf_Borehole", bb, dict(hf=borehole(2 * pi, 1), lf=borehole(5, 1.5)))
    T["mf_CurrinExp"] = _row(mf, "mf_CurrinExp", [U] * 2, dict(hf=currin, lf=currin_lf))
    T["mf_Himmelblau"] = _row(mf, "mf_Himmelblau", [[-4, 4]] * 2, dict(hf=himmel, lf=lambda x: himmel((.5 * x[0], .8 * x[1])) + x[1] ** 3 - (x[0] + 1) ** 2))
    T["mf_Park91A"] = _row(mf, "mf_Park91A", [U] * 4, dict(hf=park_a, lf=park_a_lf))
    T["mf_Park91B"] = _row(mf, "mf_Park91B", [U] * 4, dict(hf=park_b, lf=park_b_lf))
    return T


def wide():
    """the variable-dimension problems in more variables: name -> row"""
    W = {}
    for d in (4, 6, 7, 8, 9, 10, 12, 16, 20, 33, 50):
        for m, b in ((5.0, 15), (2, 4.0)):
            kw = dict(num_dim=d) if m == 5.0 else dict(num_dim=d, m=m, beta=b)
            W["Thevenot%d-m%g" % (d, m)] = _row("mfpml.problems.sf_functions", "Thevenot", [[-2 * pi, 2 * pi]] * d,
                                                dict(f=thevenot(m, b)), kw, optimum=(-1.0, 1e-9), vary=True)
        for a, b, c in ((20, .2, 2 * pi), (5.0, .8, 2.0)):
            kw = dict(num_dim=d) if a == 20 else dict(num_dim=d, a=a, b=b, c=c)
            W["Ackley%d-a%g" % (d, a)] = _row("mfpml.problems.sf_functions", "Ackley", [[-32, 32]] * d,
                                              dict(f=ackley(a, b, c)), kw, optimum=(0.0, 1e-9), vary=True)
    return W


def make(row, **extra):
    import importlib
    c = getattr(importlib.import_module(row["module"]), row["cls"])
    return c(**dict(row["kw"], **extra))
