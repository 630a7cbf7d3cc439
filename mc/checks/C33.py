"""Sampler plots, read back from the figures handed to the plotting library."""
import os
import re
import shutil
import tempfile

import matplotlib.figure as mfig
import matplotlib.pyplot as plt
import numpy as np

from mc import doe
from mfpml.visualization.samplers_visualization import (MFSamplerVisualization,
                                                        SFSamplerVisualization)

BOUNDS = ("5 samplers x 1-3 variables (4 refused) x 1-5 fidelities x nested or "
          "not x every sequence of up to 3 (4 in thorough) plots and redraws with the three save settings; designs of up to 1150 points")
ASSUMPTIONS = ["figures are rendered at low resolution; displaying is a stand-in",
               "at most five fidelities (the colours the library has)"]
BOX = [[-5.0, 10.0], [0.0, 15.0], [100.0, 50000.0], [-3.0, -2.0]]


def series(fig):
    """[(label, points)] of the data shown in a figure"""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if hasattr(c, "_offsets3d"):
                p = np.column_stack([np.asarray(v, float) for v in c._offsets3d])
            else:
                p = np.asarray(c.get_offsets(), float)
            out.append((str(c.get_label()), p))
        for l in ax.lines:
            p = np.column_stack(l.get_data_3d() if hasattr(l, "get_data_3d") else l.get_data())
            out.append((str(l.get_label()), np.asarray(p, float)))
    return out


class Desk:
    """records what is saved or shown, in a scratch directory"""

    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp(prefix="plot")
        os.chdir(self.dir)
        plt.close("all")
        self.saved, self.shown = [], []
        self.real, self.show = mfig.Figure.savefig, plt.show
        desk = self

        def savefig(fig, fname, *a, **k):
            desk.saved.append((fname, series(fig)))
            k.pop("bbox_inches", None)
            k["dpi"] = 20
            return desk.real(fig, fname, **k)

        def show(*a, **k):
            desk.shown += [series(plt.figure(i)) for i in plt.get_fignums()]
            plt.close("all")
        mfig.Figure.savefig, plt.show = savefig, show
        return self

    def __exit__(self, *a):
        mfig.Figure.savefig, plt.show = self.real, self.show
        plt.close("all")
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        return sorted(os.listdir(self.dir))


def order(p):
    p = np.asarray(p, float)
    return p[np.lexsort(p.T[::-1])]


def shown(ctx, got, levels, d, mf, what):
    """got: [(label, points)]; levels: the points of each fidelity"""
    ctx.require(len(got) == len(levels), lambda: "%s: %d series, expected %d" % (what, len(got), len(levels)))
    if mf:
        ctx.require(len({l for l, _ in got}) == len(got), lambda: "%s: labels %s are not separate" % (what, [l for l, _ in got]))
    for i, (label, p) in enumerate(got):
        ctx.require(label and not label.startswith("_"), lambda: "%s: a series has no label" % what)
        k = i
        if mf:
            num = re.findall(r"\d+", label)
            ctx.require(len(num) == 1 and int(num[0]) < len(levels), lambda: "%s: label %r names no fidelity" % (what, label))
            k = int(num[0])
        ctx.same(order(p[:, :d]), order(levels[k]), "%s: points shown as %r" % (what, label))
        ctx.require(p.shape[1] == max(d, 2), lambda: "%s: points have %d coordinates" % (what, p.shape[1]))


def plots(kinds, depth, dims, fids, scale=1):
    def fn(ctx):
        kind = ctx.choose("sampler", kinds)
        mf = kind in ("mf lhs", "mf sobol", "mf lhs nested", "mf sobol nested")
        d = ctx.choose("variables", dims)
        box = np.array(BOX[:d], float)
        if mf:
            L = ctx.choose("fidelities", fids)
            cls = doe.MF["lhs" if "lhs" in kind else "sobol"]
            s = cls(design_space=box.copy(), num_fidelity=L, nested="nested" in kind)
            draws = [([scale * (2 + i) for i in range(L)], 3), ([4 + 2 * i for i in range(L)], 8)]
        else:
            cls = doe.FixNumberSampler if kind == "fixed" else doe.SF[kind]
            s = cls(design_space=box[:, :1].copy() if kind == "fixed" else box.copy())
            draws = [(5 * scale, 3), (2, 8)]
        Vis = MFSamplerVisualization if mf else SFSamplerVisualization
        with Desk() as desk:
            ctx.raises(lambda: Vis(s), "a sampler without points is accepted")
            ctx.op("refuse")

            def draw(i):
                n, seed = draws[i]
                s.get_samples(list(n) if mf else n, **({} if kind == "fixed" else {"seed": seed}))
            draw(0)
            v = Vis(s)

            def held():
                return [np.array(x, float) for x in (s.data if mf else [s.samples])]
            want_files = []
            for i in range(depth):
                op = ctx.choose("operation %d" % i, ["show", "save", "save default", "redraw"] if i < depth - 1 else ["show", "save", "save default"])
                if op == "redraw":
                    draw(1)
                    ctx.op("redraw")
                    continue
                before = held()
                nsave, nshow = len(desk.saved), len(desk.shown)
                kw = {} if op == "show" else dict(save_figure=True)
                if op == "save":
                    kw["filename"] = "my figure %d.v2.png" % i
                if d > 3:
                    ctx.raises(lambda: v.plot_samples(**kw), "four variables are not refused")
                    ctx.require(desk.files() == want_files, lambda: "files %s after a refused plot" % desk.files())
                    continue
                v.plot_samples(**kw)
                ctx.op(op)
                name = {"show": None, "save": "my figure %d.v2.png" % i, "save default": "samples.png"}[op]
                if name:
                    want_files = sorted(set(want_files + [name]))
                    ctx.require(os.path.exists(name) and os.path.getsize(name) > 0, lambda: "no file %s is written" % name)
                    ctx.require(len(desk.saved) == nsave + 1, "%d figures saved" % (len(desk.saved) - nsave))
                    got = desk.saved[-1][1]
                else:
                    ctx.require(len(desk.saved) == nsave, "a figure is saved though only shown")
                    ctx.require(len(desk.shown) == nshow + 1, "%d figures shown" % (len(desk.shown) - nshow))
                    got = desk.shown[-1]
                ctx.require(desk.files() == want_files, lambda: "files %s, expected %s" % (desk.files(), want_files))
                shown(ctx, got, before, d, mf, "operation %d (%s)" % (i, op))
                now = held()
                ctx.require(len(now) == len(before), "plotting changed the number of fidelities")
                for a, b in zip(before, now):
                    ctx.same(b, a, "plotting changed the points")
                ctx.state((kind, d, len(before), op, i, before[0]))
                ctx.outcome((kind, d, op, before[0]))
    return fn


SFK = ["lhs", "random", "sobol", "fixed"]
MFK = ["mf lhs", "mf sobol", "mf lhs nested", "mf sobol nested"]


def scenarios(tier):
    if tier == "thorough":
        return [("single", plots(SFK, 4, [1, 2, 3, 4], [1])),
                ("multi", plots(MFK, 3, [1, 2, 3, 4], [1, 2, 3, 5])),
                ("many points", plots(SFK[:3] + MFK, 2, [1, 2, 3], [2, 5], 230))]
    return [("single", plots(SFK, 2, [1, 2, 3, 4], [1])),
            ("sequences", plots(SFK[:1], 3, [2], [1])),
            ("multi", plots(MFK, 1, [1, 2, 3, 4], [1, 2, 3])),
            ("many points", plots(SFK[:3] + MFK[:3], 1, [1, 2, 3], [2], 230)),
            ("many fidelities", plots(MFK, 1, [1, 2, 3], [4, 5])),
            ("multi sequences", plots(MFK[:1], 3, [1], [2])),
            ("multi pairs", plots(MFK[1:2], 2, [2, 3], [2]))]
