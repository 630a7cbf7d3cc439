"""Closes the environment of the code under test.

Imported before anything else: points ``mfpml`` at /repo's working tree,
single-threads the linear algebra, silences plotting, and puts a dispatcher in
front of the two scipy optimisers the library calls, so that a check can either
let them run or answer for them (``scripted_minimize`` / ``scripted_de``).
The dispatchers are installed on scipy itself, before mfpml is imported, so it
does not matter how the library imports them.
"""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

REPO = os.environ.get("MFPML_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, SRC)

import contextlib  # noqa: E402
import inspect  # noqa: E402
import warnings  # noqa: E402

import numpy as np  # noqa: E402
import scipy.optimize as _so  # noqa: E402

warnings.filterwarnings("ignore")
np.seterr(all="ignore")

_real_minimize = _so.minimize
_real_de = _so.differential_evolution
_handlers = {"minimize": None, "de": None}


def _by_name(f, a, k, skip):
    """positional arguments after the first ones, by their names"""
    names = list(inspect.signature(f).parameters)[skip:]
    return dict(zip(names, a), **k)


def _minimize(fun, x0=None, *a, **k):
    h = _handlers["minimize"]
    k = _by_name(_real_minimize, a, k, 2)
    if h is None:
        return _real_minimize(fun, x0, **k)
    return h(fun, x0, **k)


def _de(func, bounds=None, *a, **k):
    h = _handlers["de"]
    k = _by_name(_real_de, a, k, 2)
    if h is None:
        return _real_de(func, bounds, **k)
    return h(func, bounds, **k)


_so.minimize = _minimize
_so.differential_evolution = _de


@contextlib.contextmanager
def scripted_minimize(handler):
    old = _handlers["minimize"]
    _handlers["minimize"] = handler
    try:
        yield
    finally:
        _handlers["minimize"] = old


@contextlib.contextmanager
def scripted_de(handler):
    old = _handlers["de"]
    _handlers["de"] = handler
    try:
        yield
    finally:
        _handlers["de"] = old


def _bounds_array(bounds):
    if isinstance(bounds, _so.Bounds):
        return np.column_stack([np.ravel(bounds.lb), np.ravel(bounds.ub)])
    return np.array([list(b) for b in bounds], dtype=float)


def fixed_point_minimize(frac=0.8):
    """A cheap stand-in for L-BFGS-B: answers with one fixed point of the box."""
    def handler(fun, x0=None, *a, **k):
        b = k.get("bounds", None)
        if b is None:
            x = np.array(x0, dtype=float)
        else:
            b = _bounds_array(b)
            x = b[:, 0] + frac * (b[:, 1] - b[:, 0])
        args = k.get("args", ())
        f = float(np.ravel(fun(x, *args))[0])
        return _so.OptimizeResult(x=x, fun=f, success=True)
    return handler


class ScriptedOptimizer:
    """An optimiser object in the library's style that gives scripted answers
    and records what it was asked."""

    def __init__(self, answers):
        self.answers = list(answers)
        self.calls = []

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        i = len(self.calls)
        ans = self.answers[min(i, len(self.answers) - 1)]
        x = ans(num_dim, np.array(design_space)) if callable(ans) else ans
        x = np.array(x, dtype=float).ravel()
        args = k.get("args", ())
        self.calls.append(dict(func=func, num_dim=num_dim, args=args,
                               design_space=np.array(design_space), x=x.copy()))
        y = float(np.ravel(func(x.copy().reshape(1, -1), *args))[0])
        return ({"best_x": x.copy(), "best_y": np.array([y])}, y, x.copy())

    def plot_optimization_history(self, *a, **k):
        pass


import matplotlib  # noqa: E402

matplotlib.use("Agg", force=True)
import matplotlib.pyplot as plt  # noqa: E402

plt.show = lambda *a, **k: None


def load():
    """Import the package and prove it is the one under /repo."""
    import mfpml
    here = os.path.realpath(mfpml.__file__)
    assert here.startswith(os.path.realpath(SRC)), here
    return mfpml
