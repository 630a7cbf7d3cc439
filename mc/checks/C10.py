"""Result record of PSO/DE for every assignment of objective values."""
import itertools

import numpy as np

from mc import ea

BOUNDS = ("population 3, 2 generations: all assignments of the values "
          "-1, 0, 1 to the evaluated points (initial ones sorted in quick), 4 algorithm settings; population 4, "
          "1 generation: all 3^8; early stopping at every threshold; 5 real "
          "objectives x 6 boxes x 4 settings x seeds, up to 8 generations, printing or saving; "
          "populations up to 180, up to 60 (200) generations, 4-10 variables, values of 1e-12 to 1e300")
ASSUMPTIONS = ["objectives return one finite value per point"]


def tables(pop, gen, algos, values=(0.0, 1.0, -1.0), stops=(None,), sort0=False):
    rows = list(itertools.product(values, repeat=pop))

    def fn(ctx):
        algo = ctx.choose("algorithm", algos)
        stop = ctx.choose("stop", list(stops))
        t = [ctx.choose("values%d" % k, [r for r in rows if k or not sort0 or list(r) == sorted(r)])
             for k in range(gen + 1)]
        rec = ea.Recorder(ea.Table(t))
        box = np.array([[-5.0, 10.0], [0.0, 15.0]])
        with ea.draws(11):
            ret = ea.ALGOS[algo](pop, gen).run_optimizer(
                func=rec, num_dim=2, design_space=box, stopping_error=stop)
        ctx.op(algo)
        ctx.require(1 <= len(rec.calls) <= gen + 1, "number of calls")
        ea.truthful(ctx, algo, rec.calls, ret, pop, gen, box)
        ctx.state((algo, stop, tuple(t)))
        ctx.outcome((algo, ret[1], len(rec.calls)))
    return fn


def real(draws, gens):
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        f = ctx.choose("objective", list(ea.FUNCS))
        bn = ctx.choose("box", list(ea.BOXES))
        pop = ctx.choose("population", [3, 5])
        gen = ctx.choose("generations", gens)
        stop = ctx.choose("stop", [None, -2.0, 1.0, 1e9])
        d = ctx.choose("draws", draws)
        save, loud = ctx.choose("save, print", [(False, False), (True, False), (False, True)]) if d == 0 else (False, False)
        box = np.array(ea.BOXES[bn])
        rec = ea.Recorder(ea.FUNCS[f], "flat" if pop == 3 else "column")
        with ea.draws(d):
            ret = ea.ALGOS[algo](pop, gen).run_optimizer(
                rec, len(box), box, stopping_error=stop, save_step_results=save, print_info=loud)
        ctx.op(algo)
        ea.truthful(ctx, algo, rec.calls, ret, pop, gen, box)
        ctx.state((algo, f, bn, pop, gen, stop, ret[2]))
    return fn


def large(sizes, draws):
    """more particles, generations and variables"""
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        bn = ctx.choose("box", list(ea.LARGE))
        pop, gen = ctx.choose("size", sizes)
        f = ctx.choose("objective", list(ea.FUNCS) + list(SCALES))
        d = ctx.choose("draws", draws)
        box = np.array(ea.LARGE[bn])
        rec = ea.Recorder(ea.FUNCS.get(f) or SCALES[f])
        with ea.draws(d):
            ret = ea.ALGOS[algo](pop, gen).run_optimizer(func=rec, num_dim=len(box), design_space=box)
        ctx.op(algo)
        ea.truthful(ctx, algo, rec.calls, ret, pop, gen, np.array(ea.LARGE[bn]))
        ctx.state((algo, bn, pop, gen, f, ret[2]))
    return fn


SIZES = [(7, 9), (10, 21), (24, 12), (51, 3), (12, 60), (180, 2)]
SCALES = {"1e12": lambda x: 1e12 + 1e9 * ea.waves(x), "1e-12": lambda x: 1e-12 * ea.waves(x), "-1e300": lambda x: -1e300 - 1e299 * ea.waves(x)}


def scenarios(tier):
    big = tier == "thorough"
    A = list(ea.ALGOS)
    out = [("values 3x2", tables(3, 2, A if big else ["pso", "de-rand"], sort0=not big)),
           ("values 3x2, two levels", tables(3, 2, A, (0.0, 1.0), (None, 0.5))),
           ("values 4x1", tables(4, 1, A if big else ["pso-fast", "de-best"])),
           ("real", real([0, 1, 2, 3, 4, 5] if big else [0, 1], [1, 3, 8] if big else [1, 5]))]
    out.append(("large", large(SIZES + [(101, 5), (30, 200)] if big else SIZES, [0, 1, 2, "ends"] if big else [0])))
    if big:
        out.append(("values 3x3, two levels", tables(3, 3, A, (0.0, 1.0), (None, 0.5))))
    return out
