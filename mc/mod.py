"""Shared alphabets and builders for the surrogate-model checks."""
import numpy as np

from mc import env, ref
from mfpml.models.basis_functions import Linear, Ordinary, Quadratic
from mfpml.models.co_kriging import CoKriging
from mfpml.models.gaussian_process import GaussianProcessRegression as GP
from mfpml.models.hierarchical_kriging import HierarchicalKriging
from mfpml.models.kernels import RBF
from mfpml.models.scale_kriging import ScaledKriging

TREND = dict(ordinary=Ordinary, linear=Linear, quadratic=Quadratic)
ODD = {
    "slim": lambda d: [[0.0, 1e-7], [-3e-8, 1e-8], [1.0, 1.00001], [5e-10, 7e-10]][:d],
    "vast": lambda d: [[-1e12, 1e12], [0.0, 1e9], [1e8, 1e10], [-2e15, -1e15]][:d],
}


class Boxes(dict):
    def __missing__(self, name):
        return ODD[name]


BOX = Boxes({
    "unit": lambda d: [[0.0, 1.0]] * d,
    "wide": lambda d: [[-5.0, 10.0], [0.0, 15.0], [100.0, 50000.0], [-1.0, 1.0],
                       [0.02, 0.03], [-2e4, 1e4], [5.0, 6.5], [-1e-4, 1e-4],
                       [-2.0, 0.5], [0.0, 4.0], [10.0, 90.0], [-0.3, 0.3]][:d],
    "neg": lambda d: [[-7.0, -3.0], [-1e-3, -5e-4], [2.0, 3.0], [-90.0, -1.0],
                      [0.0, 1e5], [-1.5, -1.0], [-0.25, 0.0], [7.0, 70.0],
                      [-30.0, -1.0], [-8e3, -6e3], [0.5, 0.75], [-2.0, 9.0]][:d],
    "int": lambda d: [[-3, 5], [0, 7], [10, 12], [-1, 1], [-9, -2], [4, 40],
                      [0, 1], [100, 300], [-5, -1], [0, 9], [-2, 1], [3, 4]][:d],
})
PHI = {1: [0.6180339887], 2: [0.7548776662, 0.5698402910],
       3: [0.8191725134, 0.6710436067, 0.5497004779]}


def _steps(d):
    """steps of the additive recurrence: powers of the root of r**(d+1) = r + 1"""
    r = 1.2
    for _ in range(200):
        r = (1 + r) ** (1.0 / (d + 1))
    return [(1 / r) ** (i + 1) for i in range(d)]


for _d in range(4, 33):
    PHI[_d] = _steps(_d)


def points(d, n, box, start=0):
    """n well-spread distinct points (additive recurrence)"""
    i = np.arange(start + 1, start + n + 1)[:, None]
    U = np.mod(0.5 + i * np.array(PHI[d])[None, :], 1.0)
    b = np.array(box, float)
    return b[:, 0] + U * (b[:, 1] - b[:, 0])


def response(kind, X, box):
    U = ref.unit(X, box)
    s = U.sum(axis=1)
    if kind == "wave":
        y = np.sin(5 * s) + 0.5 * U[:, 0]
    elif kind == "big":
        y = 1e4 + 300 * np.cos(4 * s) - 70 * U[:, -1] ** 2
    elif kind == "small":
        y = -0.02 + 1e-3 * np.sin(7 * U[:, 0]) + 1e-3 * s ** 2
    elif kind == "against":
        y = 2.0 + np.cos(4 * s) + 0.3 * U[:, 0]
    else:                                   # "kink"
        y = np.abs(s - 0.4 * U.shape[1]) + 0.1 * np.sign(U[:, 0] - 0.5)
    return y.reshape(-1, 1)


def low(kind, X, box):
    if kind == "against":                   # falls where the high fidelity rises
        return 2.1 - 0.12 * (response(kind, X, box) - 2.1) + 0.01 * ref.unit(X, box)[:, :1]
    U = ref.unit(X, box)
    return 0.6 * response(kind, X, box) + np.std(response(kind, X, box)) * (
        0.3 + 0.7 * U[:, :1] - 0.2 * np.cos(3 * U[:, -1:]))


def queries(d, box, X):
    """samples, interior points, corners and points outside the box"""
    b = np.array(box, float)
    w = b[:, 1] - b[:, 0]
    g = points(d, 4, box, 50)
    return np.vstack([X[:2], (X[:1] + X[1:2]) / 2, g, b[:, 0], b[:, 1],
                      b[:, 1] + 0.2 * w, b[:, 0] - 1.5 * w])


class Grid:
    """a deterministic optimiser: the best of a fixed set of points of the box;
    it depends on the objective, so a stale objective shows"""

    def __init__(self, k=5):
        self.k = k
        self.calls = []

    def run_optimizer(self, func, num_dim, design_space, *a, **kw):
        b = np.array(design_space, float)
        t = np.mod(0.37 + np.outer(np.arange(self.k), 0.618 + 0.1 * np.arange(num_dim)), 1.0)
        t = 0.62 + 0.3 * t          # away from the ill-conditioned end
        P = b[:, 0] + t * (b[:, 1] - b[:, 0])
        v = np.array([float(np.ravel(func(p.reshape(1, -1)))[0]) for p in P])
        x = P[int(np.argmin(v))]
        self.calls.append(dict(num_dim=num_dim, design_space=b, values=v, x=x))
        y = np.array([v.min()])
        return {"best_x": x.copy(), "best_y": y}, float(y[0]), x.copy()

    def plot_optimization_history(self, *a, **k):
        pass


class Fixed(env.ScriptedOptimizer):
    def __init__(self, *answers):
        super().__init__([np.array(a, float) for a in answers])


def predict(ctx, m, X, std=True, lf=False):
    f = m.predict_lf if lf else m.predict
    if not std:
        out = f(np.array(X, float))
        ctx.op("predict")
        return np.asarray(out, float)
    mean, sd = f(np.array(X, float), return_std=True)
    ctx.op("predict+std")
    return np.asarray(mean, float), np.asarray(sd, float)


def column(ctx, a, n, what):
    ctx.require(a.shape == (n, 1), lambda: "%s has shape %s for %d points" % (what, a.shape, n))
    ctx.require(np.all(np.isfinite(a)), lambda: "%s is not finite: %s" % (what, a.ravel().tolist()))


def against(ctx, m, k, X, U, noise, what, lf=False):
    """mean and std of m at X against reference k at unit points U"""
    mean, sd = predict(ctx, m, X, lf=lf)
    plain = predict(ctx, m, X, std=False, lf=lf)
    n = len(X)
    column(ctx, mean, n, what + " mean")
    column(ctx, sd, n, what + " std")
    column(ctx, plain, n, what + " mean without std")
    scale = k.s * (1 + float(np.max(np.abs(k.mean(U) - k.m))) / k.s)
    tol = scale * (1e-9 + 3e-14 * k.cond) + k.jitter_tol() + 1e-12 * abs(k.m)
    ctx.close(mean.ravel(), k.mean(U), what + " mean", 0, tol)
    ctx.close(plain.ravel(), k.mean(U), what + " mean without std", 0, tol)
    ev = k.epi_var(U)
    v = np.maximum(ev, 0) + noise ** 2
    vt = (float(np.max(np.abs(ev))) + noise ** 2 + 1e-30) * (1e-8 + 3e-14 * k.cond) \
        + 1e-8 * getattr(k, "sig2", 1.0) * k.s ** 2
    ctx.close(sd.ravel() ** 2, v, what + " variance", 1e-7, vt)
    return mean, sd


# --------------------------------------------------- one interface per model

class Case:
    """a model kind with its data, so that checks can treat all alike"""

    def __init__(self, kind, d=1, nh=4, nl=9, box="wide", fam="wave", noise=0.0,
                 shift=0, opt=None, trend="ordinary", nested=True):
        self.kind, self.d = kind, d
        self.box_name = box
        self.box = np.array(BOX[box](d), float)
        self.mf = kind != "gp"
        self.noise = noise
        self.trend = trend
        self.opt = opt
        if self.mf:
            self.Xl = points(d, nl, self.box, shift)
            self.Xh = self.Xl[:nh].copy() if nested else points(d, nh, self.box, shift + 31)
            self.yl = low(fam, self.Xl, self.box)
            self.yh = response(fam, self.Xh, self.box)
        else:
            self.Xh = points(d, nl, self.box, shift)
            self.yh = response(fam, self.Xh, self.box)

    def answer(self, num_dim, b):
        """fixed hyper-parameters for any of the searches of any model"""
        b = np.array(b, float)
        out = []
        for i in range(num_dim):
            lo, hi = b[i]
            if abs(lo - 1e-5) < 1e-12:          # noise
                out.append(0.05)
            elif lo > 0:                        # scale factor
                out.append(1.3)
            else:
                out.append(min(hi, 1.1 + 0.25 * i))
        return np.array(out)

    def build(self, **kw):
        opt = self.opt() if self.opt else env.ScriptedOptimizer([self.answer])
        k = dict(optimizer=opt, noise_prior=self.noise)
        k.update(kw)
        box = k.pop("design_space", self.box.copy())
        if self.kind == "gp":
            return GP(box, regr=TREND[self.trend](), **k)
        return {"hk": HierarchicalKriging, "sk": ScaledKriging,
                "ck": CoKriging}[self.kind](box, **k)

    def data(self):
        """fresh copies of the training arguments"""
        if self.mf:
            return [self.Xh.copy(), self.Xl.copy()], [self.yh.copy(), self.yl.copy()]
        return self.Xh.copy(), self.yh.copy()

    def train(self, m):
        m.train(*self.data())
        return m

    def q(self):
        return queries(self.d, self.box, self.Xh)


def everything(ctx, m, X, mf):
    """all predictions of a model at X"""
    out = list(predict(ctx, m, X))
    out.append(predict(ctx, m, X, std=False))
    if mf:
        out += list(predict(ctx, m, X, lf=True))
    return out


NAMES = ["mean", "std", "mean without std", "low-fidelity mean", "low-fidelity std"]
KINDS = ["gp", "hk", "sk", "ck"]
