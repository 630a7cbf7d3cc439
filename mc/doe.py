"""Alphabets shared by the design-of-experiment checks."""
import itertools

import numpy as np

from mfpml.design_of_experiment import (FixNumberSampler, LatinHyperCube,
                                        MFLatinHyperCube, MFSobolSequence,
                                        RandomSampler, SobolSequence)

SF = dict(lhs=LatinHyperCube, random=RandomSampler, sobol=SobolSequence)
MF = dict(lhs=MFLatinHyperCube, sobol=MFSobolSequence)

BOXES = dict(
    unit1=[[0.0, 1.0]],
    unit2i=[[0, 1], [0, 1]],
    branin=[[-5.0, 10.0], [0.0, 15.0]],
    neg1=[[-7.0, -3.0]],
    mixed3=[[-1.0, 1.0], [100.0, 50000.0], [0.05, 0.15]],
    tiny2=[[-1e-3, 1e-3], [-10.0, -2.0]],
    offset2=[[1e6, 1e6 + 1], [-1e6, -1e6 + 0.5]],
    int3=[[-32, 32], [-32, 32], [-4, 5]],
    unit6=[[0.0, 1.0]] * 6,
    micro2=[[0.0, 1e-13], [-3e-15, 5e-15]],
    huge2=[[-1e300, 1e300], [2e150, 7e160]],
    bore8=[[0.05, 0.15], [100, 50000], [63070, 115600], [990, 1110],
           [63.1, 116], [700, 820], [1120, 1680], [9855, 12045]],
    mixed12=[[-1.0 - i, 2.0 + 3.0 * i] if i % 3 else [10.0 ** (i - 5), 10.0 ** (i - 4)]
             for i in range(12)],
    mixed25=[[-3.0 - 2 * i, 1.0 + i] if i % 4 else [10.0 ** (3 - i / 4), 10.0 ** (4 - i / 4)]
             for i in range(25)],
)
DEGENERATE = [[2.0, 2.0], [0.0, 1.0]]
DEFAULT = "default"


def as_form(box, form):
    if form == "array":
        return np.array(box)
    if form == "farray":
        return np.asfortranarray(np.array(box, dtype=float))
    return [list(r) for r in box]


def draw(obj, n, seed):
    if isinstance(seed, str) and seed == DEFAULT:
        return obj.get_samples(n)
    return obj.get_samples(num_samples=n, seed=seed)


def in_box(x, box):
    box = np.array(box, dtype=float)
    tol = 1e-12 * np.max(np.abs(box), axis=1)
    return bool(np.all(x >= box[:, 0] - tol) and np.all(x <= box[:, 1] + tol))


def to_unit(x, box):
    box = np.array(box, dtype=float)
    return (x - box[:, 0]) / (box[:, 1] - box[:, 0])


def nondecreasing(values, k):
    return [list(c) for c in itertools.combinations_with_replacement(values, k)]


def rows_in(a, b):
    """are the rows of a distinct rows of b?  returns (subset, distinct)"""
    sb = [tuple(r) for r in np.asarray(b).tolist()]
    sa = [tuple(r) for r in np.asarray(a).tolist()]
    return all(r in set(sb) for r in sa), len(set(sa)) == len(sa)
