"""Scripted surrogates for the acquisition and optimisation checks."""
import numpy as np

from mc import env, mod, ref
from mfpml.optimization import mf_acqusitions as MFA
from mfpml.optimization import sf_cons_acqusitions as SCA
from mfpml.optimization import sf_uncons_acqusitions as SUA

SF = dict(LCB=SUA.LCB, EI=SUA.EI, PI=SUA.PI)
MF = dict(AugmentedEI=MFA.AugmentedEI, VFEI=MFA.VFEI, VFLCB=MFA.VFLCB,
          ExtendedPI=MFA.ExtendedPI)


def key(row):
    return tuple(np.round(np.asarray(row, float), 9).tolist())


class Book:
    """predictions by point; a conspicuous one at points not in the book"""
    OTHER = (55.0, 3.3, -44.0, 2.2)

    def __init__(self):
        self.t = {}

    def put(self, x, *v):
        self.t[key(x)] = v

    def get(self, X, i):
        X = np.atleast_2d(np.asarray(X, float))
        return np.array([self.t.get(key(r), self.OTHER)[i] for r in X], float).reshape(-1, 1)


class ScriptedGP(mod.GP):
    """a trained Gaussian process whose predictions are looked up"""

    def __init__(self, d, book, sample_y, box=None):
        box = np.array([[-1e3, 1e3]] * d) if box is None else np.array(box, float)
        super().__init__(box, optimizer=mod.Fixed([1.0] * d))
        X = mod.points(d, 4, box)
        self.train(X, mod.response("wave", X, box))
        self.book = book
        y = np.array(sample_y, float).reshape(-1, 1)
        self.sample_y = y
        self.sample_x = mod.points(d, len(y), box)

    def predict(self, X, return_std=False):
        m = self.book.get(X, 0)
        return (m, self.book.get(X, 1)) if return_std else m


def scripted_mf(cls):
    """a trained multi-fidelity model whose predictions are looked up:
    the book holds (mean, std, low-fidelity mean, low-fidelity std)"""

    class Scripted(cls):
        book = None

        def predict(self, X, return_std=False):
            if self.book is None:
                return super().predict(X, return_std)
            m = self.book.get(X, 0)
            return (m, self.book.get(X, 1)) if return_std else m

        def predict_lf(self, X, return_std=False):
            if self.book is None:
                return super().predict_lf(X, return_std)
            m = self.book.get(X, 2)
            return (m, self.book.get(X, 3)) if return_std else m
    return Scripted


MODELS = dict(hk=mod.HierarchicalKriging, sk=mod.ScaledKriging, ck=mod.CoKriging)
SCRIPTED = {k: scripted_mf(v) for k, v in MODELS.items()}


def point(i, d):
    """the i-th query point, recognisable in every coordinate"""
    return [0.01 * i + 0.001, 3.0 - 0.01 * i, 5.0 + 0.02 * i, -7.0 - 0.03 * i,
            0.5, 11.0 + 0.01 * i, -0.02 * i, 2.5][:d]
