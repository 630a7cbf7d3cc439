"""Every subset of optional arguments left out, and every split of the
arguments into positions and names, of every public call."""
import contextlib
import io
import itertools
import os

import numpy as np

from mc import acq, bo, doe, ea, env, mod
from mc.checks import C27, C32, C33
from mfpml.models.basis_functions import Linear, Ordinary
from mfpml.models.kernels import RBF
from mfpml.optimization import sf_cons_acqusitions as SCA
from mfpml.problems import mf_functions as MFF
from mfpml.problems import sf_functions as SFF
from mfpml.problems.functions import FunctionWrapper

BOUNDS = ("all public constructors, runs, queries, draws, predictions and savings with optional arguments: every subset of at most 2 (all in "
          "thorough) arguments left out or of at most 2 given, at most 1 (2) of the given ones with another value; every split into "
          "positions and names, all arguments with other values")
ASSUMPTIONS = ["searches of models and criteria are stand-ins that record what they are asked",
               "defaults are those of the documentation, or of the signature where it names none or another one (kernel bounds, scale "
               "factor bounds)"]
BOX2 = np.array([[-5.0, 10.0], [0.0, 15.0]])


class V:
    """a freshly made value"""

    def __init__(self, make):
        self.make = make


def val(v):
    return v.make() if isinstance(v, V) else v


def listen(log):
    def search(fun, x0=None, *a, **k):
        log.append(np.array(x0, float).ravel())
        log.append(env._bounds_array(k["bounds"]).ravel())
        return C32.draw_minimize(fun, x0, *a, **k)
    return search


def dump(*arrays):
    return [np.array(a, float).ravel() for a in arrays]


# ------------------------------------------------------------------ models
def case(kind):
    if kind == "gp":
        return mod.Case("gp", 2, nl=7, box="wide")
    return mod.Case(kind, 2, nh=4, nl=7, box="wide")


def model(kind):
    def go(make):
        c = case(kind)
        log = []
        np.random.seed(5)
        with env.scripted_minimize(listen(log)):
            m = make()
            m.train(*c.data())
        Q = c.q()
        out = dump(*m.predict(Q, return_std=True))
        if c.mf:
            out += dump(*m.predict_lf(Q, return_std=True))
        return log + out + [np.random.random(3)]
    return go


GRID = V(lambda: mod.Grid(3))
SPACE = V(lambda: np.array(mod.BOX["wide"](2), float))
GPS = V(lambda: mod.GP(design_space=np.array(mod.BOX["wide"](2), float), noise_prior=0.1, optimizer=mod.Grid(4)))
SUBJECTS = {}


def subject(name, call, required, opts, observe):
    """opts: (name, default, another value) in the documented order"""
    SUBJECTS[name] = (call, required, opts, observe)


subject("gaussian process", lambda: mod.GP, [("design_space", SPACE)],
        [("kernel", None, V(lambda: RBF(theta=np.zeros(2), bounds=[-1, 1]))), ("regr", V(Ordinary), V(Linear)),
         ("optimizer", None, GRID), ("noise_prior", 0.0, 0.3), ("optimizer_restart", 5, 1)], model("gp"))
subject("hierarchical kriging", lambda: mod.HierarchicalKriging, [("design_space", SPACE)],
        [("optimizer", None, GRID), ("optimizer_restart", 5, 1), ("kernel_bound", V(lambda: [-2.0, 3.0]), V(lambda: [-1.0, 1.0])),
         ("noise_prior", None, 0.3)], model("hk"))
subject("co-kriging", lambda: mod.CoKriging, [("design_space", SPACE)],
        [("optimizer", None, GRID), ("optimizer_restart", 0, 2), ("kernel_bound", V(lambda: [-2.0, 3.0]), V(lambda: [-1.0, 1.0])),
         ("rho_bound", V(lambda: [1e-2, 1e2]), V(lambda: [0.5, 2.0])), ("noise_prior", None, 0.3)], model("ck"))
subject("scaled kriging", lambda: mod.ScaledKriging, [("design_space", SPACE)],
        [("lfGP", None, GPS), ("disc_model", None, GPS), ("optimizer", None, GRID), ("optimizer_restart", 0, 2),
         ("kernel_bound", V(lambda: [-4.0, 3.0]), V(lambda: [-1.0, 1.0])), ("rho_optimize", False, True), ("rho_method", "error", "bumpiness"),
         ("rho_bound", V(lambda: [1e-2, 1e1]), V(lambda: [0.5, 2.0])), ("rho_optimizer", None, GRID), ("noise_prior", None, 0.3)], model("sk"))
def rbf(make):
    k = make()
    X = np.array([[0.1, 0.4], [0.9, 0.2], [0.3, 0.8]])
    return dump(k.get_kernel_matrix(X, X[:2]), k._get_low_bound, k._get_high_bound, k._get_bounds, k._get_param)


subject("kernel", lambda: RBF, [("theta", V(lambda: np.array([0.3, -0.2])))],
        [("parameters", V(lambda: ["theta"]), V(lambda: ["theta"])), ("bounds", V(lambda: [-2, 3]), V(lambda: [-1, 1]))], rbf)


def predictions(kind, lf):
    def go(make):
        return _predict(kind, lf)(make)
    return go


def trained(kind, attr):
    def get():
        c = case(kind)
        with env.scripted_minimize(env.fixed_point_minimize(0.8)):
            np.random.seed(2)
            m = c.build(optimizer=None)
            m.train(*c.data())
        return getattr(m, attr)
    return get


def plain(make):
    out = make()
    if isinstance(out, tuple):
        return [np.array([len(out)])] + dump(*out)
    return [np.array([-1])] + dump(out)


for k in mod.KINDS:
    for attr in ("predict",) + (("predict_lf",) if k != "gp" else ()):
        subject("%s.%s" % (k, attr), trained(k, attr), [("X", V(lambda: mod.points(2, 3, mod.BOX["wide"](2), 40)))],
                [("return_std", False, True)], plain)


# -------------------------------------------------------------- optimizers
class Objective(ea.Recorder):
    pass


def outcome(res, rec):
    d, y, x = res
    out = dump(y, x) + [np.array(d[k], float).ravel() for k in sorted(d)]
    return out + [c[0].ravel() for c in rec.calls] + [np.array([len(c[1]) for c in rec.calls])]


def evolution(make):
    rec = Objective(ea.waves)
    np.random.seed(4)
    return outcome(make().run_optimizer(rec, 2, BOX2.copy()), rec)


subject("pso", lambda: ea.PSO, [("num_pop", 5), ("num_gen", 4)],
        [("cognition_rate", 1.5, 1.1), ("social_rate", 1.5, 0.7), ("weight", 0.8, 0.3), ("max_velocity_rate", 0.2, 0.05)], evolution)
subject("de", lambda: ea.DE, [("num_pop", 5), ("num_gen", 4)],
        [("step_size", 0.5, 0.9), ("crossover_rate", 0.5, 0.1), ("strategy", "DE/rand/1/bin", "DE/best/1/bin")], evolution)
LAST = []


def watched():
    LAST.append(Objective(ea.waves))
    return LAST[-1]


def running(make):
    LAST.clear()
    np.random.seed(4)
    out = io.StringIO()
    with C33.Desk() as desk, contextlib.redirect_stdout(out):
        res = make()
        files = desk.files()
    return outcome(res, LAST[-1]) + [np.array([len(files), len(out.getvalue())])]


RUN = [("print_info", False, True), ("save_step_results", False, True), ("stopping_error", None, -1.0), ("args", V(tuple), V(lambda: ("a",)))]
for k in ("pso", "de-rand"):
    subject(k + ".run_optimizer", lambda k=k: ea.ALGOS[k](5, 4).run_optimizer,
            [("func", V(watched)), ("num_dim", 2), ("design_space", V(lambda: BOX2.copy()))], RUN, running)


def plotted(k):
    def get():
        np.random.seed(4)
        o = ea.ALGOS[k](4, 3)
        o.run_optimizer(ea.waves, 2, BOX2.copy())
        return o.plot_optimization_history
    return get


def plotting(make):
    with C33.Desk() as desk:
        make()
        return [np.frombuffer(" ".join(desk.files()).encode(), np.uint8), np.array([len(desk.saved), len(desk.shown)])]


for k in ("pso", "de-rand"):
    subject(k + ".plot_optimization_history", plotted(k), [],
            [("figure_name", "optimization", "other.png"), ("save_figure", True, False)], plotting)


# ---------------------------------------------------------------- criteria
class Search:
    """a supplied search, recognisable by its answers"""

    def run_optimizer(self, func, num_dim, design_space, *a, **k):
        b = np.array(design_space, float)
        P = np.array([b[:, 0] + t * (b[:, 1] - b[:, 0]) for t in (0.3, 0.66)])
        v = [float(np.ravel(func(p, *k.get("args", ())))[0]) for p in P]
        i = int(np.argmin(v))
        return {"best_x": P[i], "best_y": v[i]}, v[i], P[i]


KIND = dict(VFEI="hk")


def surrogates(name):
    return C27.surrogates(name, KIND.get(name, "ck"), 2, "wide", 1)


def watch(log):
    """the stand-in search, the values it saw going to the log"""
    def search(func, bounds, args=(), *a, **k):
        def seen(x, *b):
            v = func(x, *b)
            log.append(np.array(v, float).ravel())
            return v
        return C32.draw_de(seen, bounds, args, *a, **k)
    return search


def asking(name):
    def go(make):
        a = make()
        ms, c = surrogates(name)
        np.random.seed(8)
        log = []
        with env.scripted_de(watch(log)):
            out = C27.query(name, a, ms, 2.0, float(c.yh.min()))
        P = C27.lattice(c.box)
        vals = [C27.criterion(name, a, ms, p, 2.0, float(c.yh.min()), f) for p in P for f in ((0,) if name in C27.SURE else (0, 1))]
        return (dump(*out) if name not in C27.SURE else dump(out)) + dump(vals) + log
    return go


for name in C27.SURE + list(acq.MF):
    cls = acq.SF.get(name) or acq.MF.get(name) or SCA.CEI
    o = [("optimizer", None, V(Search))]
    if name in ("LCB", "VFLCB"):
        o.append(("kappa", V(lambda: [1.0, 1.96]), V(lambda: [0.5, 4.0])))
    subject(name, lambda cls=cls: cls, [], o, asking(name))
QUERY = dict(AugmentedEI=[("cost_ratio", 1.0, 4.0), ("fmin", 1.0, 7.0)], VFLCB=[("cost_ratio", 1.0, 4.0), ("fmin", 1.0, 7.0)],
             ExtendedPI=[("cost_ratio", 1.0, 4.0), ("fmin", 1.0, 7.0)], VFEI=[("cost_ratio", 5.0, 2.0)])


def asked(make):
    np.random.seed(8)
    log = []
    with env.scripted_de(watch(log)):
        out = make()
    return dump(*out) + log


for name, o in QUERY.items():
    req = [("mf_surrogate", V(lambda name=name: surrogates(name)[0][0]))]
    if name == "VFEI":
        req.append(("fmin", V(lambda name=name: float(surrogates(name)[1].yh.min()))))
    subject(name + ".query", lambda name=name: acq.MF[name]().query, req, o, asked)


# ------------------------------------------------------------------- loops
def looped(kind):
    def go(make):
        out = io.StringIO()
        with C32.stand_in(), contextlib.redirect_stdout(out):
            o = make()
            o.run_optimizer(max_iter=1, stopping_error=1e-9)
        s = C32.snap(o, kind)
        return [s[k].ravel() for k in sorted(s)] + [np.array([out.getvalue().count("\n")])]
    return go


def crit(kind):
    return V(acq.SUA.LCB if kind == "unc" else SCA.CEI if kind == "cons" else acq.MFA.AugmentedEI)


for kind, cls in (("unc", bo.UBO), ("cons", bo.CBO)):
    subject("loop " + kind, lambda cls=cls: cls, [("problem", V(lambda: C32.problem("wide"))), ("acquisition", crit(kind)), ("num_init", 3)],
            [("verbose", False, True), ("seed", 1996, 4)], looped(kind))
subject("loop mf", lambda: bo.MFBO, [("problem", V(lambda: C32.problem("wide"))), ("acquisition", crit("mf")), ("num_init", V(lambda: [3, 5]))],
        [("surrogate_name", "HierarchicalKriging", "CoKriging"), ("seed", 1996, 4), ("verbose", True, False)], looped("mf"))
MADE = []


def ready(kind, times):
    """an object whose first error is just below or above the default"""
    def get():
        p = C32.problem("wide")
        with C32.stand_in(), contextlib.redirect_stdout(io.StringIO()):
            MADE[:] = [C32.build(kind, p, 9, C32.size(kind))]
        p.optimum = times * float(MADE[0].best)
        return MADE[0].run_optimizer
    return get


def iterated(kind):
    def go(make):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            np.random.seed(3)
            with C32.stand_in():
                make()
        s = C32.snap(MADE[0], kind)
        return [s[k].ravel() for k in sorted(s)]
    return go


for kind in ("unc", "cons", "ScaledKriging"):
    o = [("max_iter", 10, 2)] + ([("cost_ratio", 1.0, 4.0)] if kind == "ScaledKriging" else []) + [("stopping_error", 1.0, 1e-3)]
    for times in (20.0, -20.0):
        subject("%s.run_optimizer%+d" % (kind, times), ready(kind, times), [], o, iterated(kind))


# ---------------------------------------------------------------- samplers
def drawn(mf):
    def go(make):
        s = make()
        out = s.get_samples([3, 4] if mf else 4, seed=3)
        return dump(*out) if mf else dump(out)
    return go


LIST = V(lambda: [BOX2.copy(), BOX2.copy()])
subject("sobol", lambda: doe.SF["sobol"], [("design_space", V(lambda: BOX2.copy()))], [("num_skip", None, 5)], drawn(False))
subject("mf lhs", lambda: doe.MF["lhs"], [("design_space", LIST)], [("num_fidelity", None, None), ("nested", False, True)], drawn(True))
subject("mf lhs array", lambda: doe.MF["lhs"], [("design_space", V(lambda: BOX2.copy())), ("num_fidelity", 2)], [("nested", False, True)], drawn(True))
subject("mf sobol", lambda: doe.MF["sobol"], [("design_space", LIST)],
        [("num_fidelity", None, None), ("nested", False, True), ("num_skip", None, 5)], drawn(True))
subject("mf sobol array", lambda: doe.MF["sobol"], [("design_space", V(lambda: BOX2.copy())), ("num_fidelity", 2)],
        [("nested", False, True), ("num_skip", None, 5)], drawn(True))


def points(make):
    out = make()
    return dump(*out) if isinstance(out, list) else dump(out)


def saved(make):
    with C33.Desk() as desk:
        make()
        return [np.frombuffer(" ".join(desk.files()).encode(), np.uint8)]


def sampler(name, draw):
    def get():
        if name in doe.SF:
            s = doe.SF[name](design_space=BOX2.copy())
        else:
            s = doe.MF[name[3:]](design_space=[BOX2.copy(), BOX2.copy()])
        if draw:
            s.get_samples([2, 3] if name[:2] == "mf" else 3, seed=2)
        return s
    return get


for name in list(doe.SF) + ["mf lhs", "mf sobol"]:
    mf = name[:2] == "mf"
    subject(name + ".get_samples", lambda name=name: sampler(name, False)().get_samples, [("num_samples", V(lambda mf=mf: [3, 4] if mf else 4))],
            [("seed", 123456, 9)], points)
    subject(name + ".save_data", lambda name=name: sampler(name, True)().save_data, [], [("file_name", "mf_data" if mf else "data", "other")], saved)


# ---------------------------------------------------------------- problems
def values(d):
    def go(make):
        p = make()
        X = mod.points(d, 4, np.array([[-3.0, 4.0]] * d), 9)
        return dump(p.f(X))
    return go


subject("Thevenot", lambda: SFF.Thevenot, [("num_dim", 2)], [("m", 5.0, 3.0), ("beta", 15, 11)], values(2))
subject("Ackley", lambda: SFF.Ackley, [("num_dim", 2)], [("a", 20, 10), ("b", 0.2, 0.4), ("c", 2 * np.pi, 3.0)], values(2))
for name, d in (("Forrester_1a", 1), ("Forrester_1b", 1), ("Forrester_1c", 1), ("mf_Hartman3", 3)):
    cls = getattr(MFF, name)
    subject(name + ".lf", lambda cls=cls, d=d: cls().lf, [("x", V(lambda d=d: mod.points(d, 4, [[0.0, 1.0]] * d, 9)))], [("factor", None, None)], points)
    subject(name, lambda cls=cls: cls, [], [("num_dim", d, d), ("cost", V(lambda: [1.0, 0.2]), V(lambda: [2.0, 0.5]))],
            lambda make: dump(make().cost, make()._get_cost_ratio() if hasattr(make(), "_get_cost_ratio") else 0.0))
subject("wrapper", lambda: FunctionWrapper, [("function", V(lambda: (lambda x, *a: x * 2 + len(a) + sum(a))))],
        [("args", V(tuple), V(lambda: (3, 4)))], lambda make: dump(make()(np.array([1.0, 2.0]))))


# --------------------------------------------------------------- scenarios
def ask(ctx, name, args, kw):
    call, required, opts, observe = SUBJECTS[name]

    def make():
        return f(*[val(a) for a in args], **{k: val(v) for k, v in kw.items()})
    f = call()
    ctx.op(name)
    return observe(make)


def alike(ctx, a, b, what):
    ctx.require(len(a) == len(b), lambda: "%s: %d results instead of %d" % (what, len(a), len(b)))
    for x, y in zip(a, b):
        ctx.same(np.asarray(x, float), np.asarray(y, float), what)


def omitted(names, most, others):
    def fn(ctx):
        name = ctx.choose("call", names)
        call, required, opts, observe = SUBJECTS[name]
        n = len(opts)
        subsets = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k) if k <= most or n - k <= most]
        out = ctx.choose("left out", [tuple(opts[i][0] for i in s) for s in subsets])
        given = [i for i in range(n) if opts[i][0] not in out]
        sets = [s for k in range(0, others + 1) for s in itertools.combinations(given, k)]
        other = ctx.choose("other value for", [tuple(opts[i][0] for i in s) for s in sets])
        kw = {k: v for k, v in required}
        full = dict(kw)
        for i, (k, default, alt) in enumerate(opts):
            full[k] = alt if k in other else default
            if k not in out:
                kw[k] = full[k]
        want = ask(ctx, name, (), full)
        got = ask(ctx, name, (), kw)
        alike(ctx, got, want, "%s without %s" % (name, ", ".join(out)))
        ctx.state((name, out, other))
        ctx.outcome((name, tuple(w.tobytes() for w in want)))
    return fn


def positions(names):
    def fn(ctx):
        name = ctx.choose("call", names)
        call, required, opts, observe = SUBJECTS[name]
        allv = [(k, v) for k, v in required] + [(k, alt) for k, _, alt in opts]
        n = ctx.choose("by position", list(range(1, len(allv) + 1)))
        want = ask(ctx, name, (), dict(allv))
        got = ask(ctx, name, [v for _, v in allv[:n]], dict(allv[n:]))
        alike(ctx, got, want, "%s with %d arguments by position" % (name, n))
        ctx.state((name, n))
        ctx.outcome((name, tuple(w.tobytes() for w in want)))
    return fn


def scenarios(tier):
    names = list(SUBJECTS)
    if tier == "thorough":
        return [("left out", omitted(names, 10, 2)), ("positions", positions(names))]
    return [("left out", omitted(names, 2, 1)), ("positions", positions(names))]
