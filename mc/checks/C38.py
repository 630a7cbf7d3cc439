"""Step-results file and history plot at every objective call and crash point."""
import os
import pickle

import numpy as np

from mc import ea
from mc.checks import C33

BOUNDS = ("4 algorithm settings x 5 objectives x sequences of up to 2 (3) runs, each saving or not, complete, stopped early or "
          "failing at any of its populations, the file read back at every objective call; sequences of up to 2 (3) runs and plots "
          "x 3 save settings; 60 individuals, 25 generations")
ASSUMPTIONS = ["objectives return one finite value per point",
               "the working directory is writable and a started write completes",
               "displaying is a stand-in, figures are rendered at low resolution"]
FILE = "step_results.pickle"


class Crash(RuntimeError):
    pass


def disk():
    if not os.path.exists(FILE):
        return None
    with open(FILE, "rb") as f:
        return f.read()


def filed(ctx, raw, algo, calls, box, pop, gen, what):
    """the file holds every population of `calls`"""
    ctx.require(raw is not None, lambda: what + ": nothing is saved")
    try:
        d = pickle.loads(raw)
    except Exception as e:
        ctx.fail("%s: the saved file cannot be read: %r" % (what, e))
    n = len(calls)
    low = np.minimum.accumulate([c[2].min() for c in calls])
    held = ea.parents(calls) if algo.startswith("de") else [(c[0], c[2]) for c in calls]
    hy = np.asarray(d["best_y_historical"], float)
    hx = np.asarray(d["best_x_historical"], float)
    S, R = np.asarray(d["all_samples"], float), np.asarray(d["all_responses"], float)
    for name, v in (("best_y_historical", hy), ("best_x_historical", hx), ("all_samples", S), ("all_responses", R)):
        ctx.require(len(v) >= n, lambda: "%s: %s has %d entries for %d populations" % (what, name, len(v), n))
    seen = [(x, y, g) for g, c in enumerate(calls) for x, y in zip(c[0], c[2])]
    for g in range(n):
        ctx.require(float(np.ravel(hy[g])[0]) == low[g],
                    lambda: "%s: saved best of generation %d is %r, smallest so far %r" % (what, g, np.ravel(hy[g])[0], low[g]))
        ctx.require(any(k <= g and y == low[g] and np.array_equal(np.ravel(hx[g]), x) for x, y, k in seen),
                    lambda: "%s: saved best point of generation %d was not evaluated with %r" % (what, g, low[g]))
        ctx.same(S[g], held[g][0], "%s: saved population %d" % (what, g))
        ctx.same(np.ravel(R[g]), held[g][1], "%s: saved responses %d" % (what, g))
    ctx.same(np.asarray(d["design_space"], float), np.asarray(box, float), what + ": saved design space")
    ctx.require(d["pop"] == pop and d["gen"] == gen, what + ": saved pop/gen")


class Watch(ea.Recorder):
    """an objective that reads the file back whenever it is called"""

    def __init__(self, ctx, fn, algo, save, crash, old, box, pop, gen):
        super().__init__(fn)
        self.ctx, self.algo, self.save, self.crash = ctx, algo, save, crash
        self.old, self.box, self.pop, self.gen = old, box, pop, gen

    def look(self, what):
        raw, n = disk(), len(self.calls)
        if self.save and n >= 2:
            filed(self.ctx, raw, self.algo, self.calls, self.box, self.pop, self.gen, what)
        elif not self.save or not n or raw == self.old:
            self.ctx.require(raw == self.old, lambda: what + ": the file changed " + ("before anything was evaluated" if self.save else "without saving being asked for"))
        else:
            filed(self.ctx, raw, self.algo, self.calls, self.box, self.pop, self.gen, what)

    def __call__(self, x, *args):
        n = len(self.calls)
        self.look("at population %d" % n)
        if self.crash == n:
            raise Crash("population %d" % n)
        return super().__call__(x, *args)


RUNS = [dict(box=[[-5.0, 10.0], [0.0, 15.0]], seed=3), dict(box=[[0.0, 1.0]], seed=8),
        dict(box=[[-5.0, 10.0], [0.0, 15.0]], seed=1)]


def one(ctx, opt, algo, i, fname, save, end, pop, gen):
    """run number i, ending completely, early or at population `end`"""
    box = np.array(RUNS[i]["box"])
    w = Watch(ctx, ea.FUNCS[fname], algo, save, end if isinstance(end, int) else None, disk(), box, pop, gen)
    kw = dict(save_step_results=save)
    if end == "early":
        kw["stopping_error"] = 1e9
    np.random.seed(RUNS[i]["seed"])
    try:
        res = opt.run_optimizer(func=w, num_dim=len(box), design_space=box.copy(), **kw)
    except Crash:
        res = None
    want = end if isinstance(end, int) else 2 if end == "early" else gen + 1
    ctx.require(len(w.calls) == want, lambda: "%d populations evaluated, expected %d" % (len(w.calls), want))
    w.look("after run %d" % i)
    ctx.op("run %s %s" % ("save" if save else "plain", end))
    return w, res


def steps(depth, algos, funcs, pop, gen, same):
    def fn(ctx):
        algo = ctx.choose("algorithm", algos)
        fname = ctx.choose("objective", funcs)
        plan = [(ctx.choose("save %d" % i, [True, False]), ctx.choose("end %d" % i, ["full", "early"] + list(range(gen + 1))))
                for i in range(depth)]
        kept = same and ctx.choose("object", ["same", "new"]) == "same"
        with C33.Desk() as desk:
            opt = ea.ALGOS[algo](pop, gen)
            for i, (save, end) in enumerate(plan):
                if not kept:
                    opt = ea.ALGOS[algo](pop, gen)
                one(ctx, opt, algo, i, fname, save, end, pop, gen)
                ctx.require(set(desk.files()) <= {FILE}, lambda: "files %s" % desk.files())
            raw = disk()
        ctx.state((algo, fname, tuple(plan), kept))
        ctx.outcome((algo, fname, raw and len(raw)))
    return fn


def plots(depth, algos, funcs, pop, gen):
    def fn(ctx):
        algo = ctx.choose("algorithm", algos)
        fname = ctx.choose("objective", funcs)
        with C33.Desk() as desk:
            opt = ea.ALGOS[algo](pop, gen)
            files = set()
            for i in range(depth):
                end = ctx.choose("end %d" % i, ["full", "early"])
                save = ctx.choose("steps %d" % i, [True, False]) if i == 0 else False
                w, (res, _, _) = one(ctx, opt, algo, i, fname, save, end, pop, gen)
                files |= {FILE} if save else set()
                before = pickle.dumps({k: np.array(v) for k, v in res.items()})
                raw = disk()
                low = np.minimum.accumulate([c[2].min() for c in w.calls])
                op = ctx.choose("plot %d" % i, ["show", "save", "default"])
                nsave, nshow = len(desk.saved), len(desk.shown)
                if op == "show":
                    opt.plot_optimization_history(save_figure=False)
                elif op == "save":
                    opt.plot_optimization_history(figure_name="run%d.png" % i)
                    files.add("run%d.png" % i)
                else:
                    opt.plot_optimization_history()
                    files.add("optimization.png")
                ctx.op("plot " + op)
                ctx.require(set(desk.files()) == files, lambda: "files %s, expected %s" % (desk.files(), sorted(files)))
                ctx.require(len(desk.saved) - nsave == (op != "show"), lambda: "%d figures saved" % (len(desk.saved) - nsave))
                ctx.require(len(desk.shown) > nshow, "no figure is shown")
                for got in [desk.shown[-1]] + ([desk.saved[-1][1]] if op != "show" else []):
                    ctx.require(len(got) == 1, lambda: "%d series in the plot" % len(got))
                    p = got[0][1]
                    ctx.require(len(p) == len(low), lambda: "the plot shows %d generations, %d were run" % (len(p), len(low)))
                    ctx.close(p[:, 0], np.arange(len(low)), "plotted generations", 0, 1e-12)
                    ctx.same(p[:, 1], low, "plotted best values")
                ctx.require(disk() == raw, "plotting changed the step results")
                ctx.require(pickle.dumps({k: np.array(v) for k, v in res.items()}) == before, "plotting changed the results")
            ctx.state((algo, fname, i, op, end))
            ctx.outcome((algo, fname, low[-1]))
    return fn


def scenarios(tier):
    A, F = list(ea.ALGOS), list(ea.FUNCS)
    if tier == "thorough":
        return [("steps", steps(2, A, F, 4, 4, True)), ("three runs", steps(3, A, ["steps", "waves"], 3, 2, True)),
                ("large", steps(2, A[::3], ["waves"], 60, 12, True)), ("plots", plots(3, A[::2], ["waves", "constant"], 4, 4)), ("plots of each", plots(2, A, F, 5, 6))]
    return [("single", steps(1, A, F, 4, 5, False)), ("two runs", steps(2, A, ["steps", "waves"], 4, 3, True)),
            ("large", steps(1, A, ["waves"], 60, 25, False)),
            ("plots", plots(2, A[::2], ["steps"], 4, 4)), ("plots of each", plots(1, A, F, 3, 3)), ("long plots", plots(1, A, ["sphere", "waves"], 4, 45))]
