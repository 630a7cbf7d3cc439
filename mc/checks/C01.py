"""Samplers: count, columns, box, stored points, saved file."""
import os
import pickle

import numpy as np

from mc import doe

BOUNDS = ("3 samplers x 12 boxes x 3 input forms x counts x 6 seeds x two "
          "requests per object; multi-fidelity: 2 samplers x nested or not x "
          "boxes (common and per fidelity) x all non-decreasing count tuples "
          "over the alphabet for 1-4 fidelities x two requests per object; saving over an earlier file")
ASSUMPTIONS = ["counts and boxes are those of the alphabet"]


def check_set(ctx, x, n, box):
    ctx.require(isinstance(x, np.ndarray), "the design is not an array")
    ctx.require(x.shape == (n, len(box)),
                lambda: "design has shape %s for %d points in %d variables"
                % (x.shape, n, len(box)))
    ctx.require(np.all(np.isfinite(x)), "non-finite coordinate")
    ctx.require(doe.in_box(x, box), lambda: "point outside the box %s: %s"
                % (box, x.tolist()[:4]))


def saved(ctx, obj, name, expect):
    ctx.op("save_data")
    if name is None:
        before = set(os.listdir("."))
        obj.save_data()
        new = set(os.listdir(".")) - before
        ctx.require(len(new) == 1, "saving under the default name wrote %s" % new)
        path = new.pop()
    else:
        path = name + ".pickle"
        with open(path, "wb") as f:         # an earlier file of that name
            pickle.dump([np.full((50, 3), 7.5)] * 3, f)
        obj.save_data(name)
    ctx.require(os.path.exists(path), "no file %s written" % path)
    with open(path, "rb") as f:
        back = pickle.load(f)
    os.remove(path)
    if isinstance(expect, list):
        ctx.require(isinstance(back, list) and len(back) == len(expect),
                    "file does not hold one design per fidelity")
        for a, b in zip(back, expect):
            ctx.same(a, b, "points read back from the file")
    else:
        ctx.same(back, expect, "points read back from the file")


def single(counts, second):
    def fn(ctx):
        kind = ctx.choose("sampler", sorted(doe.SF))
        name = ctx.choose("box", list(doe.BOXES) + ["degenerate"])
        box = doe.DEGENERATE if name == "degenerate" else doe.BOXES[name]
        form = ctx.choose("form", ["array", "farray", "list"])
        n = ctx.choose("count", counts)
        seed = ctx.choose("seed", [doe.DEFAULT, 0, 1, 123456, None,
                                   np.int64(77)])
        obj = doe.SF[kind](doe.as_form(box, form))
        for m, name in ((n, "design A.v2"), (ctx.choose("second", second), None)):
            x = doe.draw(obj, m, seed)
            ctx.op("get_samples(%d)" % m)
            check_set(ctx, x, m, box)
            ctx.same(obj.samples, x, "points held by the sampler")
            if seed in (0, doe.DEFAULT) and form == "array":
                saved(ctx, obj, name, x)
                ctx.same(obj.samples, x, "points held after saving")
        ctx.state((kind, name, form, n, m, x))
        ctx.outcome((kind, n, m))
    return fn


def fixed(ctx):
    point = ctx.choose("point", [[1.0], [0.5, -2.0], [3, 4, 5],
                                 [[0.1, 0.2]], [[7.0]],
                                 np.array([0.25, 0.5, -1.0, 2.0])])
    obj_in = point.copy() if isinstance(point, np.ndarray) else point
    s = doe.FixNumberSampler(obj_in)
    for n in (ctx.choose("count", [1, 2, 3, 7, 33]),
              ctx.choose("second", [1, 4])):
        x = doe.draw(s, n, ctx.choose("seed", [doe.DEFAULT, 3]))
        ctx.op("get_samples")
        ctx.same(x, np.array([np.ravel(point)] * n), "repeated point")
        ctx.same(s.samples, x, "points held by the sampler")
        saved(ctx, s, "fix", x)
    ctx.state((np.ravel(point).astype(float), n))


def multi(tuples, second):
    def fn(ctx):
        kind = ctx.choose("sampler", sorted(doe.MF))
        nested = ctx.choose("nested", [False, True])
        counts = ctx.choose("counts", tuples)
        k = len(counts)
        how = ctx.choose("space", ["array", "list-same", "list-different"]
                         if not nested else ["array", "list-same"])
        name = ctx.choose("box", ["branin", "neg1", "mixed3", "unit6", "int3", "mixed12"])
        base = np.array(doe.BOXES[name])
        if how == "array":
            boxes = [base] * k
            obj = doe.MF[kind](base.copy(), num_fidelity=k, nested=nested)
        else:
            boxes = [base if how == "list-same" else
                     base + (i * (base[:, 1:] - base[:, :1]) * 2)
                     for i in range(k)]
            obj = doe.MF[kind]([b.copy() for b in boxes], nested=nested)
        seed = ctx.choose("seed", [doe.DEFAULT, 0, 9, None])
        for i, cnt in enumerate([counts, ctx.choose("second", second(k))]):
            x = doe.draw(obj, list(cnt), seed)
            ctx.op("get_samples(%s)" % (cnt,))
            ctx.require(len(x) == k, "%d designs for %d fidelities"
                        % (len(x), k))
            for xi, n, b in zip(x, cnt, boxes):
                check_set(ctx, xi, n, b.tolist())
            ctx.require(len(obj.data) == k, "the object does not hold one design per fidelity")
            for a, b in zip(obj.data, x):
                ctx.same(a, b, "points held by the sampler")
            if seed == 0:
                saved(ctx, obj, "mf.v2" if i else None, list(x))
        ctx.state((kind, nested, how, name, counts, cnt, [np.asarray(a) for a in x]))
        ctx.outcome((kind, nested, tuple(counts)))
    return fn


def scenarios(tier):
    big = tier == "thorough"
    counts = [1, 2, 3, 5, 8, 16, 33, 64, 100, 257]
    if big:
        counts = list(range(1, 41)) + [63, 64, 65, 100, 127, 128, 129, 257,
                                       512, 1000, 1025, 4097]
    vals = [1, 2, 3, 5, 9] if big else [1, 2, 5, 9]
    tuples = [[1], [4], [65]] + doe.nondecreasing(vals, 2) + \
        doe.nondecreasing(vals[:4] if big else [1, 3, 6], 3) + \
        doe.nondecreasing([2, 5], 4) + [[10, 100], [3, 64, 65], [1, 2, 3, 40, 41], [30, 300]]
    second = lambda k: [[1] * k, list(range(2, 2 + k))]
    return [("single", single(counts, [1, 6] if not big else [1, 6, 40])),
            ("fixed", fixed), ("multi", multi(tuples, second))]
