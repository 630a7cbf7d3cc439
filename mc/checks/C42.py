"""What loops and evolutionary optimizers print, read back at every step of
scripted runs: the part printed between two evaluations (or queries) must hold
the best value and point of that moment."""
import contextlib
import io
import re

import numpy as np

from mc import bo, ea

BOUNDS = ("3 loops (3 surrogates for the multi-fidelity one) x optimum unknown, zero, negative x every sequence of 4 values of up to 3 (4 in "
          "thorough) proposed points, infeasible or low-fidelity ones included x 3 initial designs x tolerances below and at one; 4 algorithm "
          "settings x 5 objectives x 6 boxes x 1-6 (12) generations x complete or stopped early x printing on and off")
ASSUMPTIONS = ["numbers are printed with at least the precision they have now (6 digits after the point, 4 for the first value of the "
               "multi-fidelity loop)", "what is printed about the best comes after everything printed about the newest point"]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?\binf\b")


def numbers(text):
    return [float(t) for t in NUM.findall(text)]


def near(a, b, tol):
    return a == b or abs(a - b) <= tol


def holds(ctx, text, vals, tol, what):
    """the numbers vals are printed one after the other"""
    got, n = numbers(text), len(vals)
    ok = any(all(near(g, v, tol + 1e-7 * abs(v)) for g, v in zip(got[i:i + n], vals)) for i in range(len(got) - n + 1))
    ctx.require(ok, lambda: "%s is %s, printed: %r" % (what, [float(v) for v in vals], text[-600:]))


def tail(text):
    """from the first line that speaks of the best"""
    m = re.search(r"^.*best.*$", text, re.I | re.M)
    return text[m.start():] if m else ""


class Part(io.StringIO):
    """what was printed since the last cut"""

    def cut(self):
        t = self.getvalue()
        self.seek(0)
        self.truncate()
        return t


def loops(kinds, inits, depth, opts, tols, values):
    def fn(ctx):
        kind = ctx.choose("loop", kinds)
        opt = ctx.choose("optimum", opts)
        tol = ctx.choose("tolerance", tols)
        init = ctx.choose("initial values", inits)
        odd = [] if kind == "unc" else ["odd"]
        new = [ctx.choose("point %d" % i, list(values) + odd) for i in range(depth)]
        first = ctx.choose("feasible at first", [True, False]) if kind == "cons" else True
        d, n0 = 2, len(init)
        P = bo.proposals(d, depth, "row")
        out, seen = Part(), []
        feas = [kind != "cons" or (first and i != 1) for i in range(n0)] + [v != "odd" for v in new]
        vals = list(init) + [(-9.0 if kind == "cons" else 0.0) if v == "odd" else v for v in new]
        with bo.quick(), contextlib.redirect_stdout(out):
            if kind == "unc":
                p = bo.Problem(d, opt, obj=bo.Script([[v] for v in vals]))
                o = bo.UBO(p, bo.Unc(P, lambda *a: seen.append(out.cut())), num_init=n0, seed=5, verbose=True)
            elif kind == "cons":
                p = bo.Problem(d, opt, obj=bo.Script([[v] for v in vals]),
                               cons=bo.Script([[-1.0 - 0.1 * i if k else 0.5 + 0.1 * i] for i, k in enumerate(feas)]))
                o = bo.CBO(p, bo.Con(P, lambda *a: seen.append(out.cut())), num_init=n0, seed=5, verbose=True)
            else:
                H = bo.Script([[v] for v, k in zip(vals, feas) if k])
                L = bo.Script([[v] for v in (0.7, -0.4, 1.9, 0.2)] + [[-7.0 - i] for i in range(depth)])
                p = bo.Problem(d, opt, hf=H, lf=L)
                o = bo.MFBO(p, bo.Mul(P, [0 if k else 1 for k in feas[n0:]], lambda *a: seen.append(out.cut())), num_init=[n0, 4],
                            surrogate_name=kind, seed=5, verbose=True)
            X = np.vstack([np.array(o.sample if kind in ("unc", "cons") else o.sample[0], float)] + P)
            built = out.cut()
            ctx.op("build")
            o.run_optimizer(max_iter=depth, stopping_error=tol)
            seen.append(out.cut())
            ctx.op("run %d" % depth)
        seen[0] = built + seen[0]
        best, at = np.inf, None
        for i in range(n0 + len(seen) - 1):
            if feas[i] and vals[i] < best:
                best, at = vals[i], i
            if i < n0 - 1:
                continue
            k = i - n0 + 1
            what = "after initialization" if k == 0 else "after iteration %d" % k
            t = tail(built if k == 0 else seen[k])
            low = 6e-5 if k == 0 else 6e-7
            holds(ctx, t, [best], low, what + ": best value")
            if at is not None:
                holds(ctx, t, X[at], 1e-7, what + ": best point")
            if k:
                holds(ctx, seen[k], [k], 0, what + ": number of the iteration")
                if tol < 1.0 and opt is not None and at is not None:
                    holds(ctx, t, [abs(best - opt) / (abs(opt) if opt else 1.0)], 6e-7, what + ": error")
        ctx.state((kind, opt, tol, init, tuple(new), first))
        ctx.outcome((kind, best, len(seen)))
    return fn


def evolve(algos, funcs, boxes, gens, seeds, pop):
    def fn(ctx):
        algo = ctx.choose("algorithm", algos)
        fname = ctx.choose("objective", funcs)
        box = np.array(ea.BOXES[ctx.choose("box", boxes)], float)
        gen = ctx.choose("generations", gens)
        end = ctx.choose("end", ["full", "early"])
        show = ctx.choose("print", [True, False])
        np.random.seed(ctx.choose("seed", seeds))
        out, parts, xs, ys = Part(), [], [], []

        def f(x):
            parts.append(out.cut())
            xs.append(np.array(x, float))
            ys.append(np.ravel(np.array(ea.FUNCS[fname](x), float)))
            return ys[-1].copy()
        kw = dict(stopping_error=1e9) if end == "early" else {}
        with contextlib.redirect_stdout(out):
            ea.ALGOS[algo](pop, gen).run_optimizer(func=f, num_dim=len(box), design_space=box, print_info=show, **kw)
            last = out.cut()
        ctx.op("run")
        if not show:
            ctx.require(not "".join(parts + [last]).strip(), lambda: "printed without being asked: %r" % "".join(parts + [last])[:200])
        else:
            low = np.minimum.accumulate([y.min() for y in ys])
            for g in range(len(ys) - 1):
                t, what = parts[g + 1], "before generation %d" % (g + 1)
                holds(ctx, t, [g], 0, what + ": number")
                holds(ctx, t, [low[g]], 1e-8, what + ": best value")
                cand = [x for k in range(g + 1) for x, y in zip(xs[k], ys[k]) if y == low[g]]
                got = numbers(t)
                d = len(box)
                ok = any(all(near(a, b, 1e-8 + 1e-7 * abs(b)) for a, b in zip(got[i:i + d], x)) for x in cand for i in range(len(got) - d + 1))
                ctx.require(ok, lambda: "%s: none of the points with the best value is printed: %r" % (what, t))
        ctx.state((algo, fname, box.tobytes(), gen, end, show))
        ctx.outcome((algo, fname, gen, end, show))
    return fn


MFK = ["HierarchicalKriging", "ScaledKriging", "CoKriging"]
INIT = [(1.5, 0.75, 2.25), (0.75, 2.25, 1.5), (123456.75, 123455.5, 123457.25)]


def scenarios(tier):
    A, F, B = list(ea.ALGOS), list(ea.FUNCS), [b for b in ea.BOXES if b != "flat"]
    V = (3.5, 0.6875, -2.125, -3.25)
    if tier == "thorough":
        return [("loops", loops(["unc", "cons"], INIT, 3, [None, 0, -5.0], [1e-6, 1.0], V)), ("fidelities", loops(MFK, INIT[:2], 3, [None, -5.0], [1e-6, 1.0], V[:3])),
                ("longer", loops(["unc", "cons", MFK[0]], INIT[:1], 4, [-5.0], [1e-6], V)), ("evolution", evolve(A, F, B, [1, 2, 6, 12], list(range(5)), 6))]
    return [("loops", loops(["unc", "cons"], INIT, 2, [None, 0, -5.0], [1e-6, 1.0], V)), ("fidelities", loops(MFK, INIT[:2], 2, [-5.0], [1e-6, 1.0], V)),
            ("longer", loops(["unc", "cons", MFK[0]], INIT[:1], 3, [-5.0], [1e-6], V[1:])), ("evolution", evolve(A, F, B, [1, 2, 6], [0, 3], 5))]
