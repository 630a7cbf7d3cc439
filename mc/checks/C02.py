"""Designs are a function of their arguments and seed."""
import numpy as np

from mc import doe

BOUNDS = ("every sequence of requests up to the depth (3 quick, 4 thorough) "
          "over 5 requests per sampler kind, on shared or fresh objects, with "
          "3 kinds of disturbance of the global generator; all ordered pairs "
          "of 9 seeds, and pairs at distances of powers of 2 and 10; default seed for every kind; 6-12 variables x designs of up to 270 points x 4 "
          "seeds x 3 disturbances")
ASSUMPTIONS = ["different seeds may coincide only if scipy/numpy streams do"]

KINDS = ["lhs", "random", "sobol", "mf-lhs", "mf-lhs-nested", "mf-sobol",
         "mf-sobol-nested", "mf3-lhs-nested"]
# (box, size factor, seed)
REQS = [("branin", 1, 3), ("branin", 1, 4), ("branin", 2, 3),
        ("tiny2", 1, 3), ("branin", 1, 0)]
SEEDS = [0, 1, 2, 3, 7, 42, 12345, 123456, 2 ** 31 - 1]


def make(kind, box):
    b = np.array(doe.BOXES[box], dtype=float)
    if kind in doe.SF:
        return doe.SF[kind](b), b
    k = 3 if "3" in kind else 2
    cls = doe.MF["lhs" if "lhs" in kind else "sobol"]
    return cls(b, num_fidelity=k, nested="nested" in kind), b


def size(kind, f):
    if kind in doe.SF:
        return 5 * f
    return [4 * f, 9 * f] if "3" not in kind else [2 * f, 4 * f, 9 * f]


def flat(x):
    return [np.asarray(a) for a in x] if isinstance(x, list) else [np.asarray(x)]


def request(ctx, kind, req, obj=None, check_args=True):
    box, f, seed = req
    b = None
    if obj is None:
        obj, b = make(kind, box)
    n = size(kind, f)
    keep_n = list(n) if isinstance(n, list) else n
    keep_b = None if b is None else b.copy()
    x = doe.draw(obj, n, seed)
    ctx.op("%s%s" % (kind, req))
    ctx.require(n == keep_n, lambda: "the caller's counts changed from %s to %s"
                % (keep_n, n))
    if b is not None:
        ctx.same(b, keep_b, "the caller's design space after the call")
    return x


_golden = {}


def prepare():
    class _N:
        def op(self, *a):
            pass

        def require(self, *a):
            pass

        same = require
    for kind in KINDS:
        for r in REQS:
            np.random.seed(1)
            _golden[kind, r] = [a.copy() for a in flat(request(_N(), kind, r))]


def histories(depth):
    def fn(ctx):
        kind = ctx.choose("kind", KINDS)
        shared = ctx.choose("objects", ["fresh", "shared"])
        disturb = ctx.choose("global generator", ["left", "seeded", "drawn"])
        pool, given = {}, []
        for i in range(depth):
            r = ctx.choose("request %d" % i, REQS)
            if disturb == "seeded":
                np.random.seed(5 + i)
            elif disturb == "drawn":
                np.random.random(3 + i)
            obj = None
            if shared == "shared":
                if r[0] not in pool:
                    pool[r[0]] = make(kind, r[0])
                obj = pool[r[0]][0]
            x = request(ctx, kind, r, obj)
            want = _golden[kind, r]
            got = flat(x)
            ctx.require(len(got) == len(want), "number of levels changed")
            for a, b in zip(got, want):
                ctx.same(a, b, "design of request %s after %d other requests"
                         % (r, i))
            for old, keep in given:
                for a, b in zip(old, keep):
                    ctx.same(a, b, "a design returned earlier")
            given.append((got, [a.copy() for a in got]))
            ctx.state((kind, shared, disturb, i, r, got[0]))
        for name, (o, b) in pool.items():
            ctx.same(b, np.array(doe.BOXES[name], dtype=float),
                     "the caller's design space")
        ctx.outcome((kind, r))
    return fn


def many(n):
    """many requests on one object"""
    def fn(ctx):
        kind = ctx.choose("kind", KINDS)
        order = ctx.choose("order", [(1, 0), (2, 1), (3, 2), (1, 3)])
        rs = [r for r in REQS if r[0] == "branin"]
        o, _ = make(kind, "branin")
        for i in range(n):
            r = rs[(order[0] * i + order[1]) % len(rs)]
            for a, b in zip(flat(request(ctx, kind, r, o)), _golden[kind, r]):
                ctx.same(a, b, "request %d of one object: %s" % (i, r))
        ctx.state((kind, order))
    return fn


def mixed(ctx):
    """objects of different kinds interleaved"""
    ks = [ctx.choose("first", KINDS), ctx.choose("second", KINDS)]
    r0, r1 = REQS[0], ctx.choose("request", REQS[:3])
    a, _ = make(ks[0], r0[0])
    b, _ = make(ks[1], r1[0])
    x = request(ctx, ks[0], r0, a)
    y = request(ctx, ks[1], r1, b)
    z = request(ctx, ks[0], r0, a)
    for p, q in zip(flat(x), _golden[ks[0], r0]):
        ctx.same(p, q, "first design")
    for p, q in zip(flat(y), _golden[ks[1], r1]):
        ctx.same(p, q, "design of another object after a first")
    for p, q in zip(flat(z), _golden[ks[0], r0]):
        ctx.same(p, q, "design repeated after another object drew")
    ctx.state((ks, r1))


def seeds(ctx):
    kind = ctx.choose("kind", KINDS)
    f = ctx.choose("size", [1, 4])
    s = ctx.choose("seed", SEEDS)
    t = ctx.choose("other seed", SEEDS)
    box = "branin"
    x = flat(request(ctx, kind, (box, f, s)))
    y = flat(request(ctx, kind, (box, f, t)))
    eq = [np.array_equal(p, q) for p, q in zip(x, y)]
    if s == t:
        ctx.require(all(eq), "the same seed gives different designs")
    else:
        ctx.require(not any(eq), "seeds %d and %d give the same design" % (s, t))
    ctx.state((kind, f, s, t, x[-1]))


def far(ctx):
    """seeds that agree in their last binary or decimal digits"""
    kind = ctx.choose("kind", KINDS)
    s = ctx.choose("seed", [0, 3, 123456])
    t = s + ctx.choose("distance", [2 ** i for i in (8, 10, 12, 15, 16, 17, 20, 24, 30, 31)] + [10 ** i for i in range(2, 10)])
    x, y = (flat(request(ctx, kind, ("branin", 1, q))) for q in (s, t))
    ctx.require(not any(np.array_equal(p, q) for p, q in zip(x, y)), "seeds %d and %d give the same design" % (s, t))
    ctx.state((kind, s, t))


def default_seed(ctx):
    kind = ctx.choose("kind", KINDS)
    f = ctx.choose("size", [1, 3])
    o, _ = make(kind, "branin")
    before = ctx.choose("earlier seed", [None, 5])
    if before is not None:
        doe.draw(o, size(kind, f), before)
        ctx.op()
    if ctx.choose("global generator", ["left", "drawn"]) == "drawn":
        np.random.random(11)
    x = flat(doe.draw(o, size(kind, f), doe.DEFAULT))
    y = flat(request(ctx, kind, ("branin", f, 123456)))
    ctx.op()
    for p, q in zip(x, y):
        ctx.same(p, q, "design without a seed against seed 123456")
    ctx.state((kind, f, x[0]))


def large(ctx):
    """many variables and points"""
    kind = ctx.choose("kind", KINDS)
    box = ctx.choose("box", ["unit6", "bore8", "mixed12"])
    f = ctx.choose("size", [1, 5, 30])
    seed = ctx.choose("seed", [0, 3, 123456, 2 ** 31 - 1])
    np.random.seed(2)
    x = flat(request(ctx, kind, (box, f, seed)))
    how = ctx.choose("in between", ["nothing", "seed", "draw", "another design"])
    o, b = make(kind, box)
    if how == "seed":
        np.random.seed(9)
    elif how == "draw":
        np.random.random(5)
    elif how == "another design":
        request(ctx, kind, (box, 2, 8), o)
    y = flat(request(ctx, kind, (box, f, seed), o))
    for p, q in zip(x, y):
        ctx.same(q, p, "the same request again")
    ctx.state((kind, box, f, seed, how, x[0]))


def scenarios(tier):
    prepare()
    return [("histories", histories(4 if tier == "thorough" else 3)),
            ("mixed", mixed), ("seeds", seeds), ("far", far), ("default", default_seed), ("large", large),
            ("many", many(120 if tier == "thorough" else 40))]
