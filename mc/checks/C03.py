"""Latin hypercube strata; Sobol prefix, skip and dyadic balance."""
import numpy as np

from mc import doe

BOUNDS = ("Latin hypercube: counts 1-40 and up to 600 x 14 boxes x 4 seeds, "
          "every level of 1-4 fidelities; Sobol: all pairs of counts, skips "
          "0-9, 64, 200 and default, 14 boxes, 4 seeds, dyadic balance up to 2^7; 5 samplers x 14 boxes x 5 counts x "
          "3 seeds against the mapped design of the unit box")
ASSUMPTIONS = []


def strata(ctx, x, box, what):
    n = len(x)
    u = doe.to_unit(x, box)
    for j in range(u.shape[1]):
        s = np.floor(u[:, j] * n).astype(int)
        ctx.require(sorted(s.tolist()) == list(range(n)),
                    lambda: "%s: slices hit by variable %d: %s" % (what, j, sorted(s.tolist())))


def lhs(counts):
    def fn(ctx):
        box = doe.BOXES[ctx.choose("box", list(doe.BOXES))]
        n = ctx.choose("count", counts)
        seed = ctx.choose("seed", [0, 1, 123456, doe.DEFAULT])
        obj = doe.SF["lhs"](np.array(box))
        for m in (n, max(1, n - 1)):
            x = doe.draw(obj, m, seed)
            ctx.op("lhs(%d)" % m)
            strata(ctx, x, box, "%d points" % m)
        ctx.state((n, x))
    return fn


def mf_lhs(tuples):
    def fn(ctx):
        nested = ctx.choose("nested", [False, True])
        counts = ctx.choose("counts", tuples)
        k = len(counts)
        box = np.array(doe.BOXES[ctx.choose("box", ["branin", "mixed3", "neg1", "mixed12"])], float)
        how = ctx.choose("space", ["array", "list"])
        seed = ctx.choose("seed", [0, 5, doe.DEFAULT])
        boxes = [box] * k
        if how == "list" and not nested:
            boxes = [box + 3.0 * i for i in range(k)]
        obj = doe.MF["lhs"]([b.copy() for b in boxes] if how == "list" else box,
                            num_fidelity=k, nested=nested)
        x = doe.draw(obj, list(counts), seed)
        ctx.op("mf-lhs%s" % counts)
        strata(ctx, x[-1], boxes[-1], "lowest fidelity")
        if not nested:
            for i in range(k):
                strata(ctx, x[i], boxes[i], "fidelity %d" % i)
                for j in range(i):
                    if counts[i] == counts[j] and counts[i] > 1:
                        ctx.require(not np.allclose(
                            doe.to_unit(x[i], boxes[i]),
                            doe.to_unit(x[j], boxes[j]), atol=1e-6),
                            "fidelities %d and %d have the same design" % (j, i))
                    elif counts[i] > 2:
                        ctx.require(not doe.rows_in(np.round(doe.to_unit(x[j], boxes[j]), 9),
                                                    np.round(doe.to_unit(x[i], boxes[i]), 9))[0],
                                    "a level of a non-nested design is a subset of another")
        ctx.state((nested, counts, x[0]))
    return fn


def sobol(pairs, skips):
    def fn(ctx):
        box = np.array(doe.BOXES[ctx.choose("box", list(doe.BOXES))], float)
        seed = ctx.choose("seed", [0, 3, 123456, doe.DEFAULT])
        skip = ctx.choose("skip", skips)
        n, m = ctx.choose("counts", pairs)
        full = doe.SF["sobol"](box, num_skip=0)
        eff = len(box) if skip == "default" else skip
        ref = doe.draw(full, eff + m, seed)
        ctx.op("sobol skip 0")
        o = doe.SF["sobol"](box) if skip == "default" else \
            doe.SF["sobol"](box, num_skip=skip)
        x = doe.draw(o, n, seed)
        y = doe.draw(o, m, seed)
        ctx.op("sobol", 2)
        ctx.close(x, ref[eff:eff + n], "%d points after skipping %s" % (n, skip), 1e-12, 1e-12)
        ctx.close(y, ref[eff:eff + m], "%d points after skipping %s" % (m, skip), 1e-12, 1e-12)
        ctx.state((seed, skip, n, m, y))
    return fn


def dyadic(mmax):
    def fn(ctx):
        box = doe.BOXES[ctx.choose("box", list(doe.BOXES))]
        seed = ctx.choose("seed", [0, 3, 123456])
        m = ctx.choose("m", list(range(mmax + 1)))
        x = doe.draw(doe.SF["sobol"](np.array(box), num_skip=0), 2 ** m, seed)
        ctx.op("sobol(2^%d)" % m)
        strata(ctx, x, box, "2^%d points" % m)
        ctx.state((seed, m, x))
    return fn


def mf_sobol(tuples):
    def fn(ctx):
        nested = ctx.choose("nested", [False, True])
        counts = ctx.choose("counts", tuples)
        k = len(counts)
        box = np.array(doe.BOXES[ctx.choose("box", ["branin", "mixed3", "neg1", "mixed12"])], float)
        skip = ctx.choose("skip", [0, 1, 5, "default", 200, 1000])
        seed = ctx.choose("seed", [0, 3, doe.DEFAULT])
        how = ctx.choose("space", ["array", "list"] if skip != "default" else ["array"])
        boxes = [box] * k
        if how == "list" and not nested:
            boxes = [box * (1 + i) + i for i in range(k)]
        kw = {} if skip == "default" else dict(num_skip=skip)
        o = doe.MF["sobol"]([b.copy() for b in boxes] if how == "list" else box,
                            num_fidelity=k, nested=nested, **kw)
        x = doe.draw(o, list(counts), seed)
        ctx.op("mf-sobol%s" % counts)
        eff = len(box) if skip == "default" else skip
        ref = doe.draw(doe.SF["sobol"](np.array([[0.0, 1.0]] * len(box)), num_skip=eff),
                       max(counts), seed)
        for i in range(k):
            ctx.close(doe.to_unit(x[i], boxes[i]), ref[:counts[i]],
                      "fidelity %d against the single sequence" % i, 1e-8, 1e-8)
        ctx.state((nested, counts, skip, x[0]))
    return fn


def mapped(ctx):
    """a design is the design of the unit box, mapped to the box"""
    kind = ctx.choose("sampler", sorted(doe.SF) + ["mf-" + k for k in sorted(doe.MF)])
    box = np.array(doe.BOXES[ctx.choose("box", list(doe.BOXES))], float)
    n = ctx.choose("count", [1, 3, 16, 70, 300])
    seed = ctx.choose("seed", [0, 7, doe.DEFAULT])
    unit = np.array([[0.0, 1.0]] * len(box))
    if kind in doe.SF:
        xs, us, bs = [doe.draw(doe.SF[kind](box), n, seed)], [doe.draw(doe.SF[kind](unit), n, seed)], [box]
    else:
        bs = [box + (box[:, 1:] - box[:, :1]) * 3 * i for i in range(3)]
        cls, counts = doe.MF[kind[3:]], [n, n + 1, 2 * n + 3]
        xs = doe.draw(cls([b.copy() for b in bs]), list(counts), seed)
        us = doe.draw(cls([unit.copy() for b in bs]), list(counts), seed)
    ctx.op("design", 2)
    for i, (x, u, b) in enumerate(zip(xs, us, bs)):
        for j in range(len(b)):
            ctx.close(x[:, j], b[j, 0] + u[:, j] * (b[j, 1] - b[j, 0]), "variable %d of design %d against the unit box" % (j, i), 1e-13,
                      1e-13 * float(np.max(np.abs(b[j]))))
    ctx.state((kind, n, seed, xs[0]))


def scenarios(tier):
    big = tier == "thorough"
    counts = list(range(1, 41)) + [64, 100, 257, 600, 1001, 2500]
    if big:
        counts = list(range(1, 130)) + [200, 256, 257, 500, 1000, 2500, 6000]
    t2 = doe.nondecreasing([1, 2, 4, 7, 12], 2) + \
        doe.nondecreasing([1, 3, 6], 3) + doe.nondecreasing([2, 5], 4) + [[20, 150], [2, 3, 5, 40, 41], [700, 1500]]
    pairs = [(1, 2), (2, 3), (3, 8), (4, 5), (7, 16), (16, 33), (5, 64)]
    skips = ["default", 0, 1, 2, 3, 5, 8, 9, 64, 200, 600, 1000]
    if big:
        pairs = [(a, b) for b in (2, 3, 5, 8, 16, 17, 33, 100, 128, 200)
                 for a in (1, 2, 4, 7, 16, 31) if a < b]
        skips = ["default"] + list(range(0, 20)) + [31, 32, 33, 100, 600, 1000, 3000]
    return [("lhs", lhs(counts)), ("mf-lhs", mf_lhs(t2)),
            ("sobol", sobol(pairs, skips)), ("dyadic", dyadic(10 if big else 7)),
            ("mf-sobol", mf_sobol(t2)), ("mapped", mapped)]
