"""Every candidate evaluated by PSO/DE: in the box, whole populations, in budget."""
import numpy as np

from mc import ea

BOUNDS = ("4 algorithm settings and DE with 4 step sizes / crossover rates x 6 "
          "boxes x population 3-6 x 1-4 (12) generations x 5 objectives x 5 random "
          "streams (3 seeds and extreme draws) x 8 argument forms; "
          "populations up to 51 (101), up to 60 (200) generations, 4-10 variables")
ASSUMPTIONS = ["objectives return one finite value per point"]


def run(gens, draws):
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        bn = ctx.choose("box", list(ea.BOXES))
        gen = ctx.choose("generations", gens)
        pop = ctx.choose("population", [3, 4, 6])
        f = ctx.choose("objective", list(ea.FUNCS))
        d = ctx.choose("draws", draws)
        args = ctx.choose("args", [(), (3,), ([1, 2], "x"), [1, 2.5, "y", None, {}, 6], None, (0,), [None, False], ("",)] if gen == gens[-1]
                          else [(), (3,), ([1, 2], "x")])
        box = np.array(ea.BOXES[bn])
        keep = box.copy()
        if ctx.choose("frozen box", [False, True]):
            box.setflags(write=False)
        rec = ea.Recorder(ea.FUNCS[f], "flat" if gen == 2 else "column")
        opt = ea.ALGOS[algo](pop, gen)
        with ea.draws(d):
            kw = {} if args == () else dict(args=args)
            opt.run_optimizer(func=rec, num_dim=len(box), design_space=box, **kw)
        ctx.op("%s(%d,%d)" % (algo, pop, gen))
        check(ctx, rec, pop, gen, keep, args or ())
        ctx.same(box, keep, "the box of the caller")
        ctx.state((algo, bn, pop, gen, f, rec.calls[-1][0]))
    return fn


def check(ctx, rec, pop, gen, box, args):
    ctx.require(len(rec.calls) == gen + 1, lambda: "objective called %d times for %d generations" % (len(rec.calls), gen))
    for k, (x, a, y) in enumerate(rec.calls):
        ctx.require(x.shape == (pop, len(box)), lambda: "call %d has shape %s" % (k, x.shape))
        ctx.require(len(a) == len(args) and all(p is q or p == q for p, q in zip(a, args)),
                    lambda: "call %d got arguments %r instead of %r" % (k, a, args))
        ctx.require(ea.inside(x, box), lambda: "generation %d left the box: %s" % (k, x.tolist()))


def settings(draws):
    """mutations and velocities that leave the box all the time"""
    def fn(ctx):
        kind = ctx.choose("algorithm", ["pso", "DE/rand/1/bin", "DE/best/1/bin"])
        a = ctx.choose("a", [0.0, 0.5, 2.0, 10.0])
        b = ctx.choose("b", [0.0, 0.5, 1.0])
        bn = ctx.choose("box", list(ea.BOXES))
        pop = ctx.choose("population", [4, 5])
        f = ctx.choose("objective", ["slope", "sphere"])
        d = ctx.choose("draws", draws)
        gen = 5
        box = np.array(ea.BOXES[bn])
        if kind == "pso":
            opt = ea.PSO(pop, gen, weight=a, max_velocity_rate=0.1 + b)
        else:
            opt = ea.DE(pop, gen, step_size=a, crossover_rate=b, strategy=kind)
        rec = ea.Recorder(ea.FUNCS[f])
        with ea.draws(d):
            opt.run_optimizer(rec, len(box), box)
        ctx.op("%s a=%s b=%s" % (kind, a, b))
        check(ctx, rec, pop, gen, np.array(ea.BOXES[bn]), ())
        ctx.state((kind, a, b, bn, pop, f, rec.calls[-1][0]))
    return fn


def large(sizes, draws):
    """more particles, generations and variables"""
    def fn(ctx):
        algo = ctx.choose("algorithm", list(ea.ALGOS))
        bn = ctx.choose("box", list(ea.LARGE))
        pop, gen = ctx.choose("size", sizes)
        f = ctx.choose("objective", ["sphere", "slope", "waves"])
        d = ctx.choose("draws", draws)
        box = np.array(ea.LARGE[bn])
        rec = ea.Recorder(ea.FUNCS[f])
        with ea.draws(d):
            ea.ALGOS[algo](pop, gen).run_optimizer(func=rec, num_dim=len(box), design_space=box)
        ctx.op("%s(%d,%d)" % (algo, pop, gen))
        check(ctx, rec, pop, gen, np.array(ea.LARGE[bn]), ())
        ctx.state((algo, bn, pop, gen, f, rec.calls[-1][0]))
    return fn


SIZES = [(7, 9), (10, 21), (24, 12), (51, 3), (12, 60)]


def scenarios(tier):
    big = tier == "thorough"
    return [("runs", run([1, 2, 4, 12] if big else [1, 2, 4],
                         list(range(12)) + ["zeros", "ones", "ends"] if big
                         else [0, 1, "ones", "ends"])),
            ("settings", settings(list(range(12)) + ["zeros", "ones", "ends"] if big
                                  else [0, 1, 2, "zeros", "ones"])),
            ("large", large(SIZES + [(101, 5), (30, 200)] if big else SIZES, [0, 1, 2, 3, "ones", "ends"] if big else [0, "ends"]))]
