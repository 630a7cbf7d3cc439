"""Kernel and trend functions against their formulas."""
import itertools

import numpy as np

from mc import mod, ref
from mfpml.models.kernels import RBF, kronDelta

BOUNDS = ("all pairs of point sets of 1-3 points over a lattice of 3 (1-d), 4 (2-d) or "
          "5 (3-d, 4-d) points x 4 log-parameter vectors; histories of 3 parameter "
          "settings on two kernels; trends on all of these sets; kernels and trends "
          "of sets of 1-120 points in 1-32 variables")
ASSUMPTIONS = ["entries (i, i) carry the library's jitter of 1e-10, so equality "
               "is up to 1e-9"]
PTS = {
    1: [[0.0], [0.4], [1.0]],
    2: [[0.0, 0.0], [1.0, 0.25], [0.3, 1.0], [-0.5, 1.7]],
    3: [[0.0, 0.0, 0.0], [1.0, 0.25, 0.5], [0.3, 1.0, 0.1], [-0.5, 1.7, 0.9], [1.0, 1.0, 1.0]],
    4: [[0.0, 0.0, 0.0, 1.0], [1.0, 0.25, 0.5, 0.7], [0.3, 1.0, 0.1, 0.2], [-0.5, 1.7, 0.9, 0.0], [1.0, 1.0, 1.0, 1.0]],
}
TH = {d: [np.zeros(d), np.linspace(-1.5, 0.7, d), np.linspace(1.2, -0.3, d), np.full(d, 2.5)] for d in PTS}


def sets(d, most):
    n = len(PTS[d])
    return [np.array([PTS[d][i] for i in s]) for k in range(1, most + 1)
            for s in itertools.product(range(n), repeat=k)]


def kernel(most):
    def fn(ctx):
        d = ctx.choose("variables", list(PTS))
        th = ctx.choose("log theta", [t.tolist() for t in TH[d]])
        th = np.array(th)
        kset = RBF(theta=np.zeros(d))
        kset.set_params(th.copy())
        kinit = RBF(theta=th.copy())
        kcall = RBF(theta=np.full(d, 0.33))
        for A in sets(d, 2 if d > 2 else most):
            for B in sets(d, most if d < 3 else 2):
                want = ref.corr(A, B, th)
                a, b = A.copy(), B.copy()
                got = [kset.get_kernel_matrix(a, b), kinit.get_kernel_matrix(a, b), kcall(a, b, th.copy())]
                ctx.op("kernel", 3)
                for g in got:
                    ctx.close(g, want, "kernel of %s and %s" % (A.tolist(), B.tolist()), 1e-9, 1e-9)
                ctx.require(got[0].min() >= 0 and got[0].max() <= 1 + 1e-9, "kernel value outside [0, 1]")
                ctx.same(a, A, "the kernel changed its argument")
                ctx.same(b, B, "the kernel changed its argument")
                ctx.state((d, tuple(th), A, B))
            K = kset.get_kernel_matrix(A, A)
            ctx.close(K, K.T, "symmetry", 0, 1e-12)
            ctx.close(np.diag(K), np.ones(len(A)), "diagonal", 0, 1e-9)
            if len({tuple(r) for r in A.tolist()}) == len(A):
                ctx.require(np.linalg.eigvalsh(K).min() > 0, "kernel of distinct points is not positive definite")
        ctx.close(np.ravel(kcall._get_param), np.full(d, 10 ** 0.33), "parameters after calls with others", 1e-12, 0)
    return fn


def large(dims, counts):
    """kernel, trend functions on larger sets"""
    def fn(ctx):
        d = ctx.choose("variables", dims)
        na, nb = ctx.choose("points", counts)
        th = np.array(ctx.choose("log theta", [[0.1 * (i % 12) - 0.3 for i in range(d)], [1.1 - 0.2 * (i % 13) for i in range(d)],
                                               [-1.9] * d]))
        A, B = mod.points(d, na, [[-0.3, 1.2]] * d), mod.points(d, nb, [[0.0, 1.0]] * d, 20)
        k = RBF(theta=np.zeros(d))
        want = ref.corr(A, B, th)
        ctx.close(k(A, B, th.copy()), want, "kernel called", 1e-9, 1e-9)
        k.set_params(th.copy())
        ctx.close(k.get_kernel_matrix(A.copy(), B.copy()), want, "kernel", 1e-9, 1e-9)
        ctx.close(k.get_kernel_matrix(B.copy(), A.copy()), want.T, "transposed kernel", 1e-9, 1e-9)
        K = k.get_kernel_matrix(A.copy(), A.copy())
        ctx.close(K, ref.corr(A, A, th), "kernel of a set with itself", 1e-9, 1e-9)
        ctx.op("kernel", 4)
        for name in mod.TREND:
            got, w = np.asarray(mod.TREND[name]()(A.copy()), float), ref.basis(name, A)
            ctx.op("trend")
            ctx.require(got.shape == w.shape, lambda: "%s trend has shape %s, expected %s" % (name, got.shape, w.shape))
            P = np.array([[0.5 + 0.37 * i + 0.11 * i * i for i in range(d)]])
            o1 = np.argsort(np.asarray(mod.TREND[name]()(P), float)[0], kind="stable")
            o2 = np.argsort(ref.basis(name, P)[0], kind="stable")
            ctx.close(got[:, o1], w[:, o2], "%s trend" % name, 1e-12, 1e-12)
        ctx.state((d, na, nb, tuple(th)))
    return fn


def extreme(ctx):
    """factors far outside the usual bounds, on sets of a matching size"""
    d = ctx.choose("variables", list(PTS))
    e = ctx.choose("log theta", [-12.0, -9.0, -6.5, -3.5, 3.5, 4.5, 6.5, 9.0])
    th = e + 0.3 * np.arange(d)
    A = np.array(PTS[d]) * 10 ** (-e / 2)
    B = A[::-1][:2] * 1.25
    k = RBF(theta=th.copy())
    want = ref.corr(A, B, th)
    ctx.close(k.get_kernel_matrix(A.copy(), B.copy()), want, "kernel", 1e-9, 1e-9)
    k = RBF(theta=np.zeros(d))
    ctx.close(k(A.copy(), B.copy(), th.copy()), want, "kernel called", 1e-9, 1e-9)
    k.set_params(th.copy())
    ctx.close(k.get_kernel_matrix(A.copy(), B.copy()), want, "kernel after setting", 1e-9, 1e-9)
    ctx.op("kernel", 3)
    ctx.state((d, e))


def histories(ctx):
    """two kernels, every sequence of settings, calls in between"""
    d = ctx.choose("variables", [1, 2])
    ths = TH[d]
    b = [ctx.choose("bounds %d" % i, [None, [-1.0, 2.0], [-4, 3], [-3, 2.5]]) for i in range(2)]
    ks = [RBF(theta=ths[1].copy()) if x is None else RBF(theta=ths[1].copy(), bounds=list(x)) for x in b]
    cur = [ths[1], ths[1]]
    X = np.array(PTS[d])
    for step in range(3):
        i = ctx.choose("kernel", [0, 1])
        th = ths[ctx.choose("setting", [0, 2, 3])]
        how = ctx.choose("how", ["set", "call"])
        ctx.op(how)
        if how == "set":
            p = th.copy()
            ks[i].set_params(p)
            p[:] = 9.0
            cur[i] = th
        else:
            ctx.close(ks[i](X, X[:2], th.copy()), ref.corr(X, X[:2], th), "kernel called with parameters", 1e-9, 1e-9)
        for j in (0, 1):
            ctx.close(ks[j].get_kernel_matrix(X, X[::-1]), ref.corr(X, X[::-1], cur[j]), "kernel %d" % j, 1e-9, 1e-9)
            ctx.close(np.ravel(ks[j]._get_param), 10.0 ** cur[j], "parameters of kernel %d" % j, 1e-12, 0)
            lo, hi = (b[j] if b[j] is not None else [-2, 3])
            ctx.require(ks[j]._get_num_para == d, "number of parameters")
            ctx.close(ks[j]._get_low_bound, [lo] * d, "low bounds")
            ctx.close(ks[j]._get_high_bound, [hi] * d, "high bounds")
            ctx.close(ks[j]._get_bounds, [[lo, hi]] * d, "bounds")
            ctx.close(ks[j]._get_bounds_list, [[lo, hi]] * d, "bounds list")
            ctx.close(ks[j].hyperparameters, 10.0 ** cur[j], "hyper-parameters", 1e-12, 0)
    ctx.state((d, str(b), tuple(map(tuple, cur))))


def trend(most):
    def fn(ctx):
        d = ctx.choose("variables", list(PTS))
        name = ctx.choose("trend", list(mod.TREND))
        f = mod.TREND[name]()
        for X in sets(d, most if d < 4 else 2):
            x = X.copy()
            got = np.asarray(f(x), float)
            ctx.op("trend")
            ctx.close(got[:, :1], np.ones((len(X), 1)), "constant column")
            want = ref.basis(name, X)
            ctx.require(got.shape == want.shape, lambda: "trend has shape %s, expected %s" % (got.shape, want.shape))
            # products in any order, the same one for every set of points
            P = np.array([[0.5 + 0.37 * i + 0.11 * i * i for i in range(d)]])
            o1 = np.argsort(np.asarray(f(P), float)[0], kind="stable")
            o2 = np.argsort(ref.basis(name, P)[0], kind="stable")
            ctx.close(got[:, o1], want[:, o2], "trend of %s" % X.tolist(), 1e-12, 1e-12)
            ctx.close(got[:, 1:1 + d] if name != "ordinary" else got[:, :0],
                      X if name != "ordinary" else X[:, :0], "linear columns", 1e-12, 1e-12)
            ctx.same(x, X, "the trend changed its argument")
            ctx.state((d, name, X))
    return fn


def delta(ctx):
    """the Kronecker delta of the rows of two sets"""
    d = ctx.choose("variables", list(PTS))
    P = np.array(PTS[d])
    for A in sets(d, 2):
        for B in sets(d, 3 if d < 3 else 2):
            a, b = A.copy(), B.copy()
            got = np.asarray(kronDelta(a, b))
            ctx.op("delta")
            want = np.array([[bool(np.array_equal(p, q)) for q in B] for p in A])
            ctx.require(got.shape == want.shape, lambda: "delta has shape %s, expected %s" % (got.shape, want.shape))
            ctx.require(np.array_equal(got.astype(float), want.astype(float)), lambda: "delta of %s and %s is %s" % (A.tolist(), B.tolist(), got.tolist()))
            ctx.same(a, A, "the delta changed its argument")
    # close rows are different rows, in any coordinate and direction
    for j in range(d):
        for e in (1e-5, -1e-5, 1.0, -300.0):
            Q = P.copy()
            Q[:, j] += e
            ctx.require(not np.any(np.diag(np.asarray(kronDelta(P, Q)))), lambda: "rows %g apart in coordinate %d are taken for equal" % (e, j))
    ctx.state((d,))


def scenarios(tier):
    big = tier == "thorough"
    return [("kernel", kernel(3 if big else 2)), ("histories", histories), ("extreme", extreme), ("delta", delta), ("trend", trend(3)),
            ("large", large(list(range(1, 11)) + [12, 16, 25, 32], [(1, 30), (30, 1), (40, 25), (120, 90), (30, 30)]))]
