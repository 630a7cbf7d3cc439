"""Batches of every problem against its points one by one, in every storage."""
import itertools

import numpy as np

from mc import probs

T = probs.table()
BOUNDS = ("every problem configuration and function; all ordered batches of up "
          "to 3 points (4 in thorough) from a pool of 5 points with repetition "
          "x 9 storages; repeated and interleaved calls; batches of 64-20000 (200 and 5000) points against their "
          "points and parts, more than 40 calls in a row; single points as vectors where the problem takes them")
ASSUMPTIONS = []

STORE = ["c", "fortran", "columns of a wider array", "every second row",
         "reversed view", "read-only", "int", "int read-only", "int fortran"]


def pool(box, integer):
    box = np.array(box)
    lo, hi = box[:, 0], box[:, 1]
    d = len(box)
    if integer:
        a, b = np.ceil(lo), np.floor(hi)
        if d == 8:                    # the well radius has no integer
            b[0] = a[0]
        mid = np.round((a + b) / 2)
        P = [a, b, mid, np.where(np.arange(d) % 2 == 0, a, b),
             np.where(np.arange(d) % 2 == 0, mid, a)]
        return np.array(P).astype(int)
    t = np.arange(d)
    P = [lo, hi, lo + (hi - lo) * (0.31 + 0.05 * t),
         lo + (hi - lo) * (0.77 - 0.06 * t),
         np.where(t % 2 == 0, lo, lo + 0.6 * (hi - lo))]
    return np.array(P, float)


def store(P, how):
    k = how.replace("int ", "").replace("int", "c")
    P = np.array(P, dtype=int if how.startswith("int") else float)
    n, d = P.shape
    if k == "c":
        return P
    if k == "fortran":
        return np.asfortranarray(P)
    if k == "columns of a wider array":
        w = np.full((n, 2 * d + 1), 7.7)
        w[:, 1::2] = P
        return w[:, 1::2]
    if k == "every second row":
        w = np.full((2 * n, d), -3.3)
        w[::2] = P
        return w[::2]
    if k == "reversed view":
        return P[::-1].copy()[::-1]
    P.setflags(write=False)
    return P


def batches(size):
    def fn(ctx):
        name = ctx.choose("problem", list(T))
        row = T[name]
        which = ctx.choose("function", list(row["fns"]))
        how = ctx.choose("storage", STORE)
        obj = probs.make(row)
        f = getattr(obj, which)
        P = pool(row["box"], how.startswith("int"))
        width = len(row["fns"][which](pool(row["box"], False)[2].tolist()))
        single = np.array([np.asarray(f(P[i:i + 1].astype(float)), float).reshape(-1) for i in range(len(P))])
        ctx.require(single.shape == (len(P), width), "%s.%s of one point has shape %s" % (name, which, single.shape))
        for k in range(1, size + 1):
            for idx in itertools.product(range(len(P)), repeat=k):
                X = store(P[list(idx)], how)
                keep = X.copy()
                y = f(X)
                ctx.op("%s.%s%s" % (name, which, list(idx)))
                ctx.close(y, single[list(idx)], "%s.%s of %s stored as %s" % (name, which, X.tolist(), how), 1e-10, 1e-10)
                ctx.same(X, keep, "%s.%s changed its input" % (name, which))
        ctx.state((name, which, how))
        ctx.outcome((name, which, single))
    return fn


def many(sizes):
    """batches larger than any the tests use; a problem asked many times"""
    def fn(ctx):
        name = ctx.choose("problem", list(T))
        row = T[name]
        which = ctx.choose("function", list(row["fns"]))
        n = ctx.choose("points", sizes)
        box = np.array(row["box"], float)
        d = len(box)
        i = np.arange(1, n + 1)[:, None]
        U = np.mod(0.5 + i * np.sqrt(np.array([2, 3, 5, 7, 11, 13, 17, 19])[:d])[None, :], 1.0)
        X = box[:, 0] + U * (box[:, 1] - box[:, 0])
        obj = probs.make(row)
        f = getattr(obj, which)
        keep = X.copy()
        y = np.array(f(X), float)
        ctx.op("%s.%s(%d)" % (name, which, n))
        ctx.require(len(y) == n, lambda: "%d values for %d points" % (len(y), n))
        ctx.same(X, keep, "%s.%s changed its input" % (name, which))
        for j in list(range(40)) + list(range(40, n, 97)) + [n - 1]:
            ctx.close(f(X[j:j + 1].copy()), y[j:j + 1], "%s.%s, point %d of %d" % (name, which, j, n), 1e-10, 1e-10)
            ctx.op("single")
        h = n // 2 + 3
        ctx.close(np.vstack([f(X[:h]), f(X[h:])]), y, "%s.%s in two parts" % (name, which), 1e-10, 1e-10)
        ctx.close(f(X[::-1]), y[::-1], "%s.%s reversed" % (name, which), 1e-10, 1e-10)
        ctx.same(f(X), y, "%s.%s asked again after many calls" % (name, which))
        ctx.state((name, which, n))
    return fn


VECTOR = [n for n, r in T.items() if r["cls"] in (
    "Thevenot", "Ackley", "AckleyN2", "mf_Bohachevsky", "mf_Booth", "mf_Borehole",
    "mf_CurrinExp", "mf_Himmelblau", "mf_Park91A", "mf_Park91B")]


def vector(ctx):
    """one point given as a vector, where the problem takes one"""
    name = ctx.choose("problem", VECTOR)
    row = T[name]
    which = ctx.choose("function", list(row["fns"]))
    how = ctx.choose("storage", ["float", "int", "read-only", "strided"])
    obj = probs.make(row)
    f = getattr(obj, which)
    P = pool(row["box"], how == "int")
    for i in [0, 1, 2, 3, 4, 2, 0]:
        x = P[i].copy()
        if how == "strided":
            w = np.full(2 * len(x), 9.9)
            w[::2] = x
            x = w[::2]
        if how == "read-only":
            x.setflags(write=False)
        keep = x.copy()
        y = f(x)
        ctx.op("%s.%s vector" % (name, which))
        ctx.require(np.size(y) == 1, lambda: "%s.%s of one point has %d values" % (name, which, np.size(y)))
        ctx.close(np.ravel(y), np.ravel(f(P[i:i + 1].astype(float))), "%s.%s of the vector %s" % (name, which, keep.tolist()), 1e-10, 1e-10)
        ctx.same(x, keep, "%s.%s changed its input" % (name, which))
    ctx.state((name, which, how))


def purity(ctx):
    """same answer every time, whatever happened to arrays given or returned"""
    name = ctx.choose("problem", list(T))
    row = T[name]
    which = ctx.choose("function", list(row["fns"]))
    acts = [ctx.choose("act%d" % i, ["repeat", "scribble on result",
                                     "scribble on input", "other points",
                                     "other function", "new object"])
            for i in range(2)]
    obj = probs.make(row)
    P = pool(row["box"], False)
    x = P[[2, 0, 3]].copy()
    y = getattr(obj, which)(x)
    want = np.array(y, float)
    ctx.op("eval")
    for a in acts:
        if a == "scribble on result":
            if isinstance(y, np.ndarray) and y.flags.writeable:
                y += 17.0
        elif a == "scribble on input":
            x *= 0.5
            x = P[[2, 0, 3]].copy()
        elif a == "other points":
            getattr(obj, which)(P[[1, 4]].copy())
        elif a == "other function":
            for w in row["fns"]:
                getattr(obj, w)(P[[4, 1, 2]].copy())
        elif a == "new object":
            obj = probs.make(row)
        y = getattr(obj, which)(x)
        ctx.op(a)
        ctx.same(y, want, "%s.%s changed its answer after: %s" % (name, which, a))
        ctx.same(x, P[[2, 0, 3]], "%s.%s changed its input" % (name, which))
        if isinstance(y, np.ndarray):
            ctx.require(not np.shares_memory(y, x), "%s.%s returns its input" % (name, which))
    ctx.state((name, which, tuple(acts)))


def scenarios(tier):
    return [("batches", batches(4 if tier == "thorough" else 3)), ("purity", purity), ("vector", vector),
            ("many points", many([64, 128, 256, 1000, 5000, 20000] if tier == "thorough" else [200, 5000]))]
