"""Nested designs, level order, refused count tuples."""
import itertools

import numpy as np

from mc import doe

BOUNDS = ("all count tuples over the alphabet for 2, 3 and 4 fidelities, larger ones up to 300 points and 6 fidelities "
          "(ordered and out of order), 2 samplers, nested or not, 4 boxes, "
          "5 seeds (none included), with a valid request before and after each refused one")
ASSUMPTIONS = []


def levels(vals2, vals3, vals4):
    tuples = [list(t) for t in itertools.product(vals2, repeat=2)] + \
        [list(t) for t in itertools.product(vals3, repeat=3)] + \
        [list(t) for t in itertools.product(vals4, repeat=4)] + [
            [20, 150], [150, 20], [99, 300], [2, 3, 5, 40, 41], [2, 3, 5, 41, 40], [5, 3, 6, 7, 8], [10, 60, 50, 70, 80, 90]]

    def fn(ctx):
        kind = ctx.choose("sampler", sorted(doe.MF))
        nested = ctx.choose("nested", [True, False])
        counts = ctx.choose("counts", tuples)
        k = len(counts)
        box = np.array(doe.BOXES[ctx.choose("box", ["unit1", "branin", "mixed3", "mixed12"] if len(counts) == 2 else ["unit1", "branin", "mixed3"])], float)
        how = ctx.choose("space", ["array", "list"])
        seed = ctx.choose("seed", [0, 1, 123456, None])
        o = doe.MF[kind](box if how == "array" else [box.copy() for _ in range(k)],
                         num_fidelity=k, nested=nested)
        first = [2 + i for i in range(k)]
        for step, cnt in enumerate([first, counts, first]):
            ok = all(a <= b for a, b in zip(cnt, cnt[1:]))
            arg = list(cnt) if step != 1 or seed != 0 else tuple(cnt)
            ctx.op("get_samples(%s)" % (cnt,))
            if not ok:
                before = [np.array(a) for a in o.data]
                ctx.raises(lambda: doe.draw(o, arg, seed),
                           "counts %s were accepted" % (cnt,))
                ctx.require(len(o.data) == len(before), "a refused request changed the held design")
                for a, b in zip(o.data, before):
                    ctx.same(a, b, "held design after a refused request")
                continue
            x = doe.draw(o, arg, seed)
            ctx.require([len(a) for a in x] == list(cnt),
                        lambda: "levels have %s points for counts %s"
                        % ([len(a) for a in x], cnt))
            if nested:
                for i in range(k - 1):
                    sub, dis = doe.rows_in(x[i], x[i + 1])
                    ctx.require(sub, "level %d is not a subset of level %d" % (i, i + 1))
                    ctx.require(dis, "level %d repeats a point" % i)
                ctx.require(doe.rows_in(x[-1], x[-1])[1], "lowest level repeats a point")
            ctx.state((kind, nested, cnt, how, x[0]))
        ctx.outcome((ok, nested))
    return fn


def scenarios(tier):
    if tier == "thorough":
        return [("levels", levels([1, 2, 3, 5, 8, 13, 64, 65],
                                  [1, 2, 3, 5, 8], [1, 2, 4, 6]))]
    return [("levels", levels([1, 2, 3, 8, 30], [1, 2, 4, 7], [1, 3, 5]))]
