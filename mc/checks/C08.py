"""Histories of constructing, using and refusing problem objects."""
import itertools

import numpy as np

from mc import probs

T = probs.table()
BOUNDS = ("every dimension from -2 to 12 (0-12, 20, 64 plus non-integers for the "
          "variable-dimension problems) for every class; every ordered pair of "
          "problem configurations; all histories of 3 (4 in thorough) operations "
          "over 13; cost pairs over 8 x 8 values and every rounding case")
ASSUMPTIONS = ["cost ratios exactly between two integers may round either way"]


def snap(obj, row):
    """everything observable about a problem"""
    box = np.array(row["box"])
    x = np.array([box[:, 0] + (box[:, 1] - box[:, 0]) * t for t in (0.0, 0.37, 0.81)])
    s = [obj.num_dim, np.array(obj.input_domain, float).tolist(), obj._get_dimension,
         np.array(obj._input_domain, float).tolist(),
         None if obj.optimum is None else float(obj.optimum),
         None if obj._optimum is None else float(obj._optimum),
         None if obj.optimum_scheme is None else np.array(obj.optimum_scheme, float).tolist(),
         None if obj._optimum_variable is None else np.array(obj._optimum_variable, float).tolist(),
         repr(getattr(obj, "cost", None)), getattr(obj, "cr", None), obj.num_cons,
         repr(getattr(obj, "design_space", None)),
         repr(obj.get_param()) if hasattr(obj, "get_param") else None]
    for w in row["fns"]:
        s.append(np.asarray(getattr(obj, w)(x), float).tolist())
    return s


def expected(row):
    box = np.array(row["box"])
    x = np.array([box[:, 0] + (box[:, 1] - box[:, 0]) * t for t in (0.0, 0.37, 0.81)])
    return {w: np.array([f(p) for p in x.tolist()]) for w, f in row["fns"].items()}, x


def verify(ctx, obj, row, name):
    want, x = expected(row)
    ctx.require(obj.num_dim == len(row["box"]), "%s has dimension %r" % (name, obj.num_dim))
    ctx.close(np.array(obj.input_domain, float), row["box"], name + ": domain")
    if row["optimum"]:
        ctx.require(abs(float(obj.optimum) - row["optimum"][0]) <= row["optimum"][1], "%s: optimum %r" % (name, obj.optimum))
        m = np.array(obj.optimum_scheme, float)
        ctx.require(m.shape[-1] == obj.num_dim, "%s: minimiser %s for %d variables" % (name, m.tolist(), obj.num_dim))
    if hasattr(obj, "get_param"):
        kw = dict(row["kw"])
        for k, v in obj.get_param().items():
            ctx.require(k not in kw or float(v) == float(kw[k]), lambda: "%s reports %s = %r, built with %r" % (name, k, v, kw[k]))
    for w in want:
        ctx.close(getattr(obj, w)(x), want[w], "%s.%s" % (name, w), 1e-9, 1e-9)


# ------------------------------------------------------------- dimensions
FIXED = {}
for _n, _r in T.items():
    if not _r["vary"]:
        FIXED[_n] = _r


def fixed(ctx):
    name = ctx.choose("problem", list(FIXED))
    dim = ctx.choose("num_dim", [d for d in range(-2, 13)])
    row = FIXED[name]
    d = len(row["box"])
    first = probs.make(row)
    before = snap(first, row)
    ctx.op("%s(num_dim=%d)" % (name, dim))
    if dim == d:
        verify(ctx, probs.make(row, num_dim=dim), row, name)
    else:
        ctx.raises(lambda: probs.make(row, num_dim=dim), "%s accepts %d variables" % (name, dim))
    ctx.require(snap(first, row) == before, "%s changed when another one was asked for with %d variables" % (name, dim))
    verify(ctx, probs.make(row), row, name)
    ctx.state((name, dim))


def variable(ctx):
    import importlib
    cls = ctx.choose("class", ["Ackley", "Thevenot"])
    dim = ctx.choose("num_dim", [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 64, 0, -1, -3, 2.5, 2.0, "2", [2]])
    C = getattr(importlib.import_module("mfpml.problems.sf_functions"), cls)
    row = dict(T[cls + ("2-a20-b0.2" if cls == "Ackley" else "2-m5-b15")])
    first = probs.make(row)
    before = snap(first, row)
    ctx.op("%s(%r)" % (cls, dim))
    if isinstance(dim, int) and dim > 0:
        o = C(num_dim=dim)
        row2 = dict(row, box=[row["box"][0]] * dim)
        verify(ctx, o, row2, "%s(%d)" % (cls, dim))
        ctx.require(np.array(o.optimum_scheme).shape == (dim,), "minimiser of %s(%d)" % (cls, dim))
    else:
        ctx.raises(lambda: C(num_dim=dim), "%s accepts dimension %r" % (cls, dim))
    ctx.require(snap(first, row) == before, "%s(2) changed when %r variables were asked for" % (cls, dim))
    ctx.state((cls, repr(dim)))


# ------------------------------------------------------------ independence
def pairs(ctx):
    a = ctx.choose("first", list(T))
    A = probs.make(T[a])
    before = snap(A, T[a])
    for b in T:
        B = probs.make(T[b])
        ctx.op("construct " + b)
        verify(ctx, B, T[b], b + " built after " + a)
        snap(B, T[b])
        ctx.require(snap(A, T[a]) == before, "%s changed when %s was built and used" % (a, b))
        ctx.state((a, b))


OPS = ["Ackley2-a20-b0.2", "Ackley3-a10-b0.5", "Ackley1-a3-b1", "Thevenot2-m5-b15",
       "Thevenot3-m1-b2", "AckleyN2", "Branin_1", "Forrester_1a", "mf_Sixhump",
       "mf_Borehole", "evaluate all", "read metadata", "refused"]


def histories(depth):
    def fn(ctx):
        live = []
        hist = []
        for i in range(depth):
            o = ctx.choose("op%d" % i, OPS)
            hist.append(o)
            if o in T:
                obj = probs.make(T[o])
                verify(ctx, obj, T[o], o)
                live.append((o, obj, snap(obj, T[o])))
            elif o == "evaluate all":
                for n, obj, _ in live:
                    for w in T[n]["fns"]:
                        getattr(obj, w)(np.array(T[n]["box"]).T.copy())
            elif o == "read metadata":
                for n, obj, _ in live:
                    (obj._optimum, obj._optimum_variable, obj._input_domain, obj._get_low_fidelity)
            else:
                for n in ("Ackley2-a20-b0.2", "Thevenot2-m5-b15", "Branin_1", "mf_Sixhump"):
                    try:
                        probs.make(T[n], num_dim=0)
                    except Exception:
                        pass
            ctx.op(o)
            for n, obj, s in live:
                ctx.require(snap(obj, T[n]) == s, "%s changed after %s" % (n, hist))
            ctx.state(tuple(sorted(n for n, _, _ in live)) + (o,))
        ctx.outcome(tuple(sorted(n for n, _, _ in live)))
    return fn


# ------------------------------------------------------------------- costs
def costs(ctx):
    name = ctx.choose("problem", [n for n, r in T.items() if r["cost"]])
    vals = [0.1, 0.2, 0.5, 1.0, 2, 3.0, 7, 40]
    h = ctx.choose("hf cost", vals)
    l = ctx.choose("lf cost", vals)
    default = probs.make(T[name])
    c = [h, l]
    o = probs.make(T[name], cost=c)
    ctx.op("%s(cost=%s)" % (name, c))
    r = h / l
    ok = {int(np.floor(r)), int(np.ceil(r))} if abs(r - np.floor(r) - 0.5) < 1e-9 else {int(np.floor(r + 0.5))}
    ctx.require(o.cr in ok, "%s(cost=%s) has cost ratio %r" % (name, c, o.cr))
    ctx.require(c == [h, l], "%s changed the list of costs" % name)
    a, b = T[name]["cost"]
    for q, t in ((default, "built before"), (probs.make(T[name]), "built after")):
        ctx.require(q.cr == round(a / b), "default %s %s has cost ratio %r" % (name, t, q.cr))
    verify(ctx, o, T[name], name)
    ctx.state((name, h, l))


def scenarios(tier):
    return [("fixed", fixed), ("variable", variable), ("pairs", pairs),
            ("histories", histories(4 if tier == "thorough" else 3)), ("costs", costs)]
