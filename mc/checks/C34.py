"""Histories of construction and update of the multi-fidelity container."""
import numpy as np

from mc import env
from mfpml.core.data import mfArray

BOUNDS = ("two containers x every sequence of up to 4 (5 in thorough) construction and update steps x data "
          "sets of 1-10 levels with 0-1200 rows, one list object reused for both or not")
ASSUMPTIONS = ["data given as a list of arrays"]


def sets():
    a = lambda n, d, k: (np.arange(n * d, dtype=float) * 1.5 + k).reshape(n, d)
    return dict(one=[a(3, 2, 0)], two=[a(2, 1, 10), a(5, 1, 20)], three=[a(1, 3, 30), a(4, 3, 40), a(2, 3, 50)],
                four=[a(2, 2, 60), a(2, 2, 70), a(2, 2, 80), a(0, 2, 90)], flat=[np.arange(4.0), np.arange(2.0)])


def wide():
    """more levels, more rows"""
    a = lambda n, d, k: (np.arange(n * d, dtype=float) * 0.5 - k).reshape(n, d)
    return dict(six=[a(7 + i, 2, 10 * i) for i in range(6)], ten=[a(1 + i % 3, 1, i) for i in range(10)],
                long=[a(500, 4, 3), a(1200, 4, 7), a(2, 4, 9)], few=[a(300, 1, 1)])


def matches(ctx, m, want, what):
    n = len(want)
    ctx.require(m.n_levels == n, lambda: "%s: %r levels, expected %d" % (what, m.n_levels, n))
    ctx.require([int(s) for s in m.size] == [len(w) for w in want], lambda: "%s: sizes %s, expected %s" % (what, m.size, [len(w) for w in want]))
    ctx.same(m.hf, want[0], "%s: high fidelity" % what)
    for i in range(n):
        ctx.same(m[i], want[i], "%s: level %d" % (what, i))
        ctx.same(m[i - n], want[i], "%s: level %d" % (what, i - n))
    ctx.raises(lambda: m[n], "%s: level %d exists" % (what, n), IndexError)


def history(depth, names, sets=sets):
    def fn(ctx):
        S = sets()
        fresh = sets()
        box = {}
        truth = {}
        for i in range(depth):
            c = ctx.choose("container %d" % i, ["a"] if not box else ["a", "b"])
            how = ctx.choose("step %d" % i, ["construct"] if c not in box else ["construct", "set"])
            name = ctx.choose("data %d" % i, names)
            if how == "construct":
                box[c] = mfArray(S[name]) if i % 2 == 0 else mfArray(data=S[name])
            else:
                box[c](S[name])
            ctx.op(how)
            truth[c] = name
            for k in box:
                matches(ctx, box[k], fresh[truth[k]], "container %s after step %d" % (k, i))
        for n in names:
            ctx.require(len(S[n]) == len(fresh[n]), "the caller's list changed")
            for x, y in zip(S[n], fresh[n]):
                ctx.same(x, y, "the caller's data changed")
        ctx.state(tuple(sorted(truth.items())) + (i,))
        ctx.outcome(tuple(sorted(truth.items())))
    return fn


def late(ctx):
    """constructed empty, given data afterwards, several times"""
    S = sets()
    m = mfArray()
    other = mfArray()
    for i in range(3):
        name = ctx.choose("data %d" % i, list(S))
        m(S[name])
        ctx.op("set")
        matches(ctx, m, sets()[name], "set late")
        ctx.require(getattr(other, "data", None) is None, "an empty container received data")
    ctx.state((name, i))
    ctx.outcome(name)


def scenarios(tier):
    large = [("large", history(4 if tier == "thorough" else 3, list(wide()), wide))]
    if tier == "thorough":
        return [("history", history(5, ["one", "two", "three", "four"])), ("late", late)] + large
    return [("history", history(4, list(sets()))), ("late", late)] + large
