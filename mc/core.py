"""Bounded exhaustive exploration of the real library.

A *scenario* is a function ``fn(ctx)`` that drives the implementation.  Every
point where the environment, the caller or the configuration may differ is a
``ctx.choose(label, options)``; the explorer runs the scenario once for every
sequence of choices (depth-first, simplest option first), so after a run every
behaviour inside the stated alphabet and bound has been executed and checked.

``ctx.op`` counts a transition (a call into the implementation), ``ctx.state``
records the canonical form of a reached state, ``ctx.require`` and friends
compare the implementation with the reference model.

Any failed requirement and any exception is a violation; it is written as a
replay file (scenario + choice sequence), re-executed once to confirm it, and
can be run again with ``replay.py``.
"""
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env
import numpy as np

CASE_LIMIT = 60          # seconds one execution may take before it is "stuck"


class Violation(Exception):
    pass


class _Probe(Exception):
    def __init__(self, n):
        self.n = n


class _Stuck(BaseException):
    pass


def _h(key):
    return hashlib.blake2b(_canon(key), digest_size=8).digest()


def _canon(key):
    if isinstance(key, bytes):
        return key
    if isinstance(key, np.ndarray):
        return repr(key.shape).encode() + np.round(
            np.asarray(key, dtype=float), 9).tobytes()
    if isinstance(key, (tuple, list)):
        return b"(" + b",".join(_canon(k) for k in key) + b")"
    if isinstance(key, float):
        return repr(round(key, 9)).encode()
    return repr(key).encode()


class Ctx:
    def __init__(self, prefix, probe_at=None, rng_seed=20240):
        self.prefix = prefix
        self.choices = []       # (label, n, index, repr)
        self.points = []        # n per point
        self.taken = []
        self.probe_at = probe_at
        self.transitions = 0
        self.checks = 0
        self.states = set()
        self.outcomes = set()
        self.log = []
        random.seed(rng_seed)
        np.random.seed(rng_seed)

    # -- nondeterminism ---------------------------------------------------
    def choose(self, label, options):
        options = list(options)
        n = len(options)
        i = len(self.taken)
        if self.probe_at is not None and i == self.probe_at:
            raise _Probe(n)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise RuntimeError("replay divergence at %s: %d of %d"
                                   % (label, k, n))
        else:
            k = 0
        self.points.append(n)
        self.taken.append(k)
        self.choices.append((label, _short(options[k])))
        return options[k]

    # -- accounting -------------------------------------------------------
    def op(self, name="call", n=1):
        self.transitions += n
        if len(self.log) < 40:
            self.log.append(name)

    def state(self, key):
        self.states.add(_h(key))

    def outcome(self, key):
        self.outcomes.add(_h(key))

    # -- oracle -----------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-9):
        self.checks += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
        if g.size == 0:
            return
        bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        same = (g == w)
        bad &= ~same
        if np.any(bad):
            i = tuple(int(j) for j in np.argwhere(bad)[0])
            raise Violation("%s: at %s got %r, expected %r"
                            % (msg, i, float(g[i]), float(w[i])))

    def same(self, got, want, msg):
        """exact equality, shape and values"""
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            raise Violation("%s: got %s, expected %s"
                            % (msg, _short(got), _short(want)))

    def raises(self, fn, msg, exc=Exception):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        raise Violation(msg)


def _short(x, n=160):
    if isinstance(x, np.ndarray):
        s = "array" + repr(x.tolist())
    elif callable(x) and hasattr(x, "__name__"):
        s = x.__name__
    else:
        s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


# ------------------------------------------------------------------------ #

def _alarm(signum, frame):
    raise _Stuck()


def _execute(fn, prefix, probe_at=None):
    """One execution.  Returns (ctx, error message or None)."""
    ctx = Ctx(prefix, probe_at)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        fn(ctx)
    except _Probe:
        raise
    except Violation as e:
        err = str(e)
    except _Stuck:
        err = "the execution did not finish within %d s" % CASE_LIMIT
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit included: nothing may escape
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ""
        for f in reversed(tb):
            if f.filename.startswith(env.SRC):
                where = " (%s:%d in %s)" % (
                    os.path.relpath(f.filename, env.REPO), f.lineno, f.name)
                break
        else:
            f = tb[-1]
            where = " (%s:%d)" % (os.path.basename(f.filename), f.lineno)
        err = "%s: %s%s" % (type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx, err


class Result:
    def __init__(self, name):
        self.name = name
        self.executions = 0
        self.transitions = 0
        self.checks = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.max_choices = 0

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.checks += o.checks
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.max_choices = max(self.max_choices, o.max_choices)
        if len(self.samples) < 2:
            self.samples += o.samples[: 2 - len(self.samples)]
        self.violations += o.violations


def _explore(name, fn, prefix):
    """Depth-first over every completion of ``prefix``."""
    res = Result(name)
    stack = list(prefix)
    fixed = len(prefix)
    while True:
        ctx, err = _execute(fn, stack)
        res.executions += 1
        res.transitions += ctx.transitions
        res.checks += ctx.checks
        res.states |= ctx.states
        res.outcomes |= ctx.outcomes
        res.max_choices = max(res.max_choices, len(ctx.taken))
        if not res.samples:
            res.samples.append(dict(scenario=name,
                                    choices=["%s=%s" % c for c in ctx.choices],
                                    calls=ctx.log[:12]))
        if err is not None:
            again = _execute(fn, ctx.taken)[1]
            res.violations.append(dict(
                scenario=name, path=list(ctx.taken),
                choices=["%s=%s" % c for c in ctx.choices],
                calls=ctx.log, message=err, confirmed=again is not None))
            if _ident(res.violations[-1]) not in _KNOWN:
                return res
        if len(ctx.taken) < len(stack):
            # the prefix named a choice that was never reached
            if fixed and len(ctx.taken) < fixed:
                return res
        # next in depth-first order
        path = list(ctx.taken)
        pts = ctx.points
        i = len(path) - 1
        while i >= fixed and path[i] + 1 >= pts[i]:
            i -= 1
        if i < fixed:
            return res
        stack = path[:i] + [path[i] + 1]


_SCEN = []
_KNOWN = set()


def _ident(v):
    return v["scenario"] + "|" + "|".join(v["choices"])


def _worker_init(scratch):
    d = tempfile.mkdtemp(prefix="w", dir=scratch)
    os.chdir(d)
    sys.stdout = open(os.devnull, "w")


def _job(j):
    si, prefix = j
    name, fn = _SCEN[si]
    return si, _explore(name, fn, prefix)


def _split(si, fn, depth):
    """Prefixes that partition the tree of the scenario: at least ``depth``
    choices long, longer while there are too few of them to share out."""
    out = [()]
    for level in range(depth + 3):
        if level >= depth and len(out) >= 40:
            break
        nxt = []
        for p in out:
            if len(p) < level:
                nxt.append(p)
                continue
            try:
                _execute(fn, list(p), probe_at=level)
                nxt.append(p)       # no further choice below p
            except _Probe as e:
                nxt += [p + (k,) for k in range(e.n)]
        out = nxt
    return [(si, list(p)) for p in out]


def run_check(pid, scenarios, tier, seed, assumptions, bounds, split=2,
              workers=None):
    """scenarios: list of (name, fn).  Returns exit code."""
    global _SCEN, _KNOWN
    t0 = time.time()
    _SCEN = scenarios
    _KNOWN = {k for k, _ in known_findings(pid)}
    workers = workers or int(os.environ.get("MC_WORKERS", 0)) or \
        min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix="mfpml-mc-")
    old = os.getcwd()
    out = sys.stdout
    results = [Result(n) for n, _ in scenarios]
    try:
        with cf.ProcessPoolExecutor(workers, mp.get_context("fork"),
                                    _worker_init, (scratch,)) as pool:
            jobs = []
            for lst in pool.map(_split_job, [(i, split) for i in
                                             range(len(scenarios))]):
                jobs += lst
            futs = {pool.submit(_job, j): j for j in jobs}
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                try:
                    si, r = f.result()
                except cf.process.BrokenProcessPool:
                    si, r = futs[f][0], Result(scenarios[futs[f][0]][0])
                    r.violations.append(dict(
                        scenario=r.name, path=list(futs[f][1]), choices=[],
                        calls=[], confirmed=False,
                        message="the process running this case died"))
                    results[si].merge(r)
                    break
                results[si].merge(r)
                if any(_ident(v) not in _KNOWN for v in r.violations):
                    # decided: what runs may finish, the rest is not started
                    for g in futs:
                        g.cancel()
    finally:
        os.chdir(old)
        sys.stdout = out
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, results, tier, seed, assumptions, bounds,
                  time.time() - t0)


def _split_job(a):
    si, depth = a
    return _split(si, _SCEN[si][1], depth)


# ------------------------------------------------------------------------ #

def known_findings(pid):
    """[(pattern, text)] of the listed findings of this property."""
    p = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                body = line.split(" ", 2)[2]
                key, text = body.split(" :: ", 1)
                out.append((key.strip(), text.strip()))
    return out


def report(pid, results, tier, seed, assumptions, bounds, wall):
    viol = [v for r in results for v in r.violations]
    known = known_findings(pid)
    unlisted = []
    hit = set()
    for v in viol:
        ident = _ident(v)
        k = [t for key, t in known if key and key == ident]
        if k:
            hit.add(k[0])
        else:
            unlisted.append(v)
    for _, text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    unlisted.sort(key=lambda v: len(v["path"]))
    for v in unlisted[:3]:
        d = os.path.join(env.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        tag = hashlib.blake2b(json.dumps([v["scenario"], v["path"]]).encode(),
                              digest_size=4).hexdigest()
        path = os.path.join(d, "%s-%s.json" % (pid, tag))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  scenario %s: %s" % (v["scenario"], v["message"][:600]))
        for c in v["choices"]:
            print("    " + c)
    states = set()
    for r in results:
        states |= {(r.name, s) for s in r.states}
    cov = dict(
        states=len(states),
        transitions=sum(r.transitions for r in results),
        traces_validated_against_impl=sum(r.executions for r in results),
        oracle_comparisons=sum(r.checks for r in results),
        samples=[s for r in results for s in r.samples][:8],
        exhaustive=not viol,
        bounds=bounds,
        scenarios=[dict(name=r.name, executions=r.executions,
                        transitions=r.transitions, states=len(r.states),
                        distinct_outcomes=len(r.outcomes),
                        max_choice_depth=r.max_choices) for r in results],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=assumptions, wall_s=round(wall, 2),
              violations=len(unlisted))
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d transitions, %d states, %d comparisons, "
          "%.1f s, %s" % (pid, tier, cov["traces_validated_against_impl"],
                          cov["transitions"], cov["states"],
                          cov["oracle_comparisons"], wall,
                          "VIOLATED" if unlisted else "held"))
    return 1 if unlisted else 0
