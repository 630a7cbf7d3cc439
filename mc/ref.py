"""Reference models, written from the mathematics and independent of mfpml."""
import math

import numpy as np

JIT = 1e-10


def unit(X, box):
    X = np.atleast_2d(np.asarray(X, float))
    box = np.asarray(box, float)
    return (X - box[:, 0]) / (box[:, 1] - box[:, 0])


def corr(A, B, logtheta):
    th = 10.0 ** np.asarray(logtheta, float)
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    out = np.empty((len(A), len(B)))
    for i in range(len(A)):
        for j in range(len(B)):
            out[i, j] = math.exp(-float(np.sum(th * (A[i] - B[j]) ** 2)))
    return out


def basis(kind, U):
    n, d = U.shape
    cols = [np.ones(n)]
    if kind in ("linear", "quadratic"):
        cols += [U[:, i] for i in range(d)]
    if kind == "quadratic":
        cols += [U[:, i] * U[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(cols, axis=1)


class Krige:
    """Universal kriging with given correlation parameters.

    noise: standard deviation in the units of y.  Trend: function of unit-box
    inputs to (n, p), or explicit trend values.
    """

    def __init__(self, U, y, logtheta, trend, noise=0.0, mean=None, std=None):
        y = np.asarray(y, float).ravel()
        self.m = np.mean(y) if mean is None else mean
        self.s = np.std(y) if std is None else std
        self.U, self.th, self.trend = U, np.asarray(logtheta, float), trend
        self.noise = noise
        n = len(y)
        self.z = (y - self.m) / self.s
        R = corr(U, U, logtheta) + JIT * np.eye(n)
        self.K = R + (noise / self.s) ** 2 * np.eye(n)
        self.cond = np.linalg.cond(self.K)
        Ki = np.linalg.inv(self.K)
        self.Ki = Ki
        F = trend(U)
        self.F = F
        self.A = np.linalg.inv(F.T @ Ki @ F)
        self.condA = np.linalg.cond(F.T @ Ki @ F)
        self.beta = self.A @ F.T @ Ki @ self.z
        r = self.z - F @ self.beta
        self.gamma = Ki @ r
        self.sig2 = float(r @ self.gamma) / n
        self.n = n

    def mean(self, U):
        return self.s * (self.trend(U) @ self.beta
                         + corr(U, self.U, self.th) @ self.gamma) + self.m

    def epi_var(self, U):
        k = corr(U, self.U, self.th).T
        f = self.trend(U).T
        r = f - self.F.T @ self.Ki @ k
        v = 1 - np.einsum("ij,ij->j", k, self.Ki @ k) \
            + np.einsum("ij,ij->j", r, self.A @ r)
        return self.sig2 * v * self.s ** 2

    def jitter_tol(self):
        """how much a jitter of 1e-10 in a cross-correlation can move the mean"""
        return 4 * JIT * float(np.max(np.abs(self.gamma))) * self.s

    def nll(self, concentrated):
        L = np.linalg.slogdet(self.K)[1]
        if concentrated:
            return 0.5 * self.n * math.log(self.sig2) + 0.5 * L
        return 0.5 * self.n * self.sig2 + 0.5 * L


def gp(X, y, box, logtheta, kind="ordinary", noise=0.0, **k):
    return Krige(unit(X, box), y, logtheta,
                 lambda U: basis(kind, U), noise, **k)


class CoKrige:
    """Autoregressive co-kriging (Kennedy-O'Hagan / Forrester) with given
    parameters; everything is standardised with the high-fidelity moments."""

    def __init__(self, Xh, yh, Xl, yl, box, th_l, th_d, rho, noise_h=0.0,
                 noise_l=None):
        yh, yl = np.ravel(yh).astype(float), np.ravel(yl).astype(float)
        noise_l = noise_h if noise_l is None else noise_l
        self.m, self.s = np.mean(yh), np.std(yh)
        self.Uh, self.Ul = unit(Xh, box), unit(Xl, box)
        self.box = box
        one = lambda U: np.ones((len(U), 1))
        self.low = Krige(self.Ul, yl, th_l, one, noise_l, self.m, self.s)
        lh = (self.low.mean(self.Uh) - self.m) / self.s
        zh = (yh - self.m) / self.s
        zl = (yl - self.m) / self.s
        nh = len(yh)
        d = zh - rho * lh
        self.Kd = corr(self.Uh, self.Uh, th_d) + JIT * np.eye(nh) \
            + (noise_h / self.s) ** 2 * np.eye(nh)
        Ki = np.linalg.inv(self.Kd)
        o = np.ones(nh)
        mu = (o @ Ki @ d) / (o @ Ki @ o)
        self.sig2d = float((d - mu) @ Ki @ (d - mu)) / nh
        self.nh = nh
        sl = self.low.sig2
        Chl = rho * sl * corr(self.Uh, self.Ul, th_l)
        C = np.block([
            [sl * self.low.K, Chl.T],
            [Chl, rho ** 2 * sl * (corr(self.Uh, self.Uh, th_l)
                                   + JIT * np.eye(nh)) + self.sig2d * self.Kd]])
        C = C + JIT * np.eye(len(C))
        self.cond = np.linalg.cond(C)
        self.Ci = np.linalg.inv(C)
        self.y = np.concatenate([zl, zh])
        o = np.ones(len(C))
        self.mu = (o @ self.Ci @ self.y) / (o @ self.Ci @ o)
        self.w = self.Ci @ (self.y - self.mu)
        self.rho, self.th_l, self.th_d, self.sl = rho, th_l, th_d, sl
        self.noise = noise_h

    def _c(self, X):
        U = unit(X, self.box)
        return np.concatenate(
            [self.rho * self.sl * corr(self.Ul, U, self.th_l),
             self.rho ** 2 * self.sl * corr(self.Uh, U, self.th_l)
             + self.sig2d * corr(self.Uh, U, self.th_d)])

    def mean(self, X):
        return self.s * (self.mu + self._c(X).T @ self.w) + self.m

    def epi_var(self, X):
        c = self._c(X)
        return self.s ** 2 * (self.rho ** 2 * self.sl + self.sig2d
                              - np.einsum("ij,ij->j", c, self.Ci @ c))

    def jitter_tol(self):
        return 4 * JIT * (1 + self.rho ** 2 * self.sl + abs(self.rho) * self.sl
                          + self.sig2d) * float(np.max(np.abs(self.w))) * self.s

    def nll(self, concentrated):
        ld = np.linalg.slogdet(self.Kd)[1]
        if concentrated:
            return 0.5 * self.nh * math.log(self.sig2d) + 0.5 * ld
        return 0.5 * self.nh * self.sig2d + 0.5 * ld


# ---------------------------------------------------------------- normal law

def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def pdf(z):
    return math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


def ei(fmin, mu, sd):
    if sd <= 0:
        return max(fmin - mu, 0.0)
    z = (fmin - mu) / sd
    return (fmin - mu) * cdf(z) + sd * pdf(z)
