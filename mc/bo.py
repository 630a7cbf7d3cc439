"""Scripted problems and acquisitions for the Bayesian-optimization checks."""
import numpy as np

from mc import env, mod
from mfpml.optimization.mf_acqusitions import MFUnConsAcq
from mfpml.optimization.mf_uncons_bo import mfUnConsBayesOpt as MFBO
from mfpml.optimization.sf_cons_acqusitions import SFConsAcq
from mfpml.optimization.sf_cons_bo import BayesConsOpt as CBO
from mfpml.optimization.sf_uncons_acqusitions import SFUnConsAcq
from mfpml.optimization.sf_uncons_bo import BayesUnConsOpt as UBO
from mfpml.problems.functions import Functions


class Script:
    """a function whose values are given in the order of first evaluation"""

    def __init__(self, values, width=1):
        self.values = [np.ravel(v).astype(float) for v in values]
        self.width = width
        self.seen = {}
        self.x, self.y, self.batches = [], [], []

    def __call__(self, X):
        X = np.asarray(X, float)
        assert X.ndim == 2, "the problem is given an array of shape %s" % (X.shape,)
        out = []
        for r in X:
            k = tuple(r.tolist())
            if k not in self.seen:
                if len(self.seen) >= len(self.values):
                    raise RuntimeError("the problem is evaluated more often than expected")
                self.seen[k] = self.values[len(self.seen)]
            self.x.append(r.copy())
            self.y.append(self.seen[k].copy())
            out.append(self.seen[k].copy())
        self.batches.append(len(X))
        return np.array(out, float).reshape(len(X), self.width)


class Problem(Functions):
    """functions are instance attributes; nothing is shared"""

    def __init__(self, d, optimum=None, obj=None, cons=None, hf=None, lf=None, box="wide"):
        self.num_dim = d
        self.num_obj = 1
        self.num_cons = cons.width if cons is not None else 0
        self.input_domain = np.array(mod.BOX[box](d), float)
        self.optimum = optimum
        self.f, self.f_cons, self.hf, self.lf = obj, cons, hf, lf

    def __call__(self, X):
        return [self.hf(np.array(X[0])), self.lf(np.array(X[1]))]


class Unc(SFUnConsAcq):
    def __init__(self, points, hook=None):
        super().__init__(optimizer=None)
        self.points, self.hook, self.n = points, hook, 0

    def eval(self, x, surrogate):
        raise NotImplementedError

    def query(self, surrogate):
        if self.n >= len(self.points):
            raise RuntimeError("the acquisition is queried more often than expected")
        if self.hook:
            self.hook(surrogate)
        self.n += 1
        return self.points[self.n - 1].copy()


class Con(SFConsAcq):
    def __init__(self, points, hook=None):
        super().__init__(optimizer=None)
        self.points, self.hook, self.n = points, hook, 0

    def eval(self, x, obj_surrogate, cons_surrogates):
        raise NotImplementedError

    def query(self, obj_surrogate, cons_surrogate):
        if self.n >= len(self.points):
            raise RuntimeError("the acquisition is queried more often than expected")
        if self.hook:
            self.hook(obj_surrogate, cons_surrogate)
        self.n += 1
        return self.points[self.n - 1].copy()


class Mul(MFUnConsAcq):
    def __init__(self, points, fids, hook=None):
        self.points, self.fids, self.hook, self.n = points, fids, hook, 0
        self.asked = []

    def eval(self, *a, **k):
        raise NotImplementedError

    def query(self, mf_surrogate, cost_ratio=1.0, fmin=1.0):
        if self.n >= len(self.points):
            raise RuntimeError("the acquisition is queried more often than expected")
        if self.hook:
            self.hook(mf_surrogate, cost_ratio, fmin)
        self.n += 1
        return self.points[self.n - 1].copy(), self.fids[self.n - 1]


def quick():
    return env.scripted_minimize(env.fixed_point_minimize(0.8))


def proposals(d, n, form, box="wide"):
    P = mod.points(d, n, mod.BOX[box](d), 70)
    if form == "bounds":    # corners, then points on the faces of the domain
        B = np.array(mod.BOX[box](d), float)
        for i in range(n):
            for j in range(d):
                if i < 2 ** d or (i + j) % 3:
                    P[i, j] = B[j, (i >> j) & 1]
        P = np.array(P, float)
    if form == "repeated" and n > 1:
        P[1] = P[0]
    if form == "returning":         # to a point proposed some iterations before, and at once
        for i in range(n):
            if i % 3 == 2:
                P[i] = P[i - 2] if i % 2 else P[0]
        P[n - 1] = P[n - 2]
    return [p.reshape(1, -1).copy() if form in ("row", "bounds", "repeated", "returning") else p for p in P]


def distinct(X):
    return len(np.unique(X, axis=0)) == len(X)


def trained_on(ctx, m, X, y, what):
    """the surrogate m is trained on exactly (X, y)"""
    X, y = np.asarray(X, float), np.asarray(y, float).reshape(-1, 1)
    ctx.same(np.asarray(m.sample_x, float), X, "%s: samples of the surrogate" % what)
    ctx.same(np.asarray(m.sample_y, float).reshape(-1, 1), y, "%s: responses of the surrogate" % what)
    if distinct(X):    # many close samples: the jitter of the correlations smooths a little
        ctx.close(m.predict(X), y, "%s: prediction at the samples" % what, 0, (1e-5 if len(X) < 8 else 1e-3 if len(X) < 100 else 2e-2) * (1e-9 + float(np.std(y))) + 1e-12 * float(np.max(np.abs(y))))


def rows(ctx, bx, X, y, best, what):
    """every row of a reported best point is a sample with the best value"""
    bx = np.asarray(bx, float)
    bx = bx.reshape(-1, X.shape[1])
    ctx.require(len(bx) >= 1, lambda: "%s: no best point" % what)
    for r in bx:
        hit = [i for i in range(len(X)) if np.array_equal(X[i], r)]
        ctx.require(any(float(y[i]) == best for i in hit),
                    lambda: "%s: best point %s is no sample with value %g" % (what, r.tolist(), best))


def long(n, low=-2.0, high=3.0):
    """values of n proposed points: an improvement at each single place, at two
    places, everywhere, nowhere; ties of the improvement"""
    base = [high + 0.1 * ((5 * i) % 7) for i in range(n)]

    def at(*ks):
        v = list(base)
        for j, k in enumerate(ks):
            v[k] = low - 0.5 * j
        return v
    out = [at(k) for k in range(n)] + [at(1, n - 1), at(n // 2, n - 2), list(base)]
    tie = list(base)
    tie[n // 3] = tie[n - 1] = low
    return out + [tie, [low - 0.2 * i for i in range(n)]]


def splits(n):
    """all ways to cut n iterations into calls (at most 3)"""
    out = [[n]]
    out += [[i, n - i] for i in range(0, n + 1)]
    return out
