#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc import env  # noqa: E402

env.load()
ORACLE = {
 "C01": "requested shape, box and the caller's own numbers; pickled file read back",
 "C02": "the design drawn by a fresh object in a fresh state; bit-for-bit equality",
 "C03": "slice counting; scipy's scrambled Sobol sequence with the same seed, for which prefix/skip relations are compared bit for bit",
 "C04": "set inclusion of rows, requested counts, error on out-of-order counts and unchanged previous design",
 "C05": "independently written formulas (mc/probs.py), relative tolerance 1e-9",
 "C06": "the function evaluated on each row on its own, and on copies in canonical storage; bit equality of the input before and after",
 "C07": "the declared optimum against the values of the problem's own objective on dense grids and its constraints at the minimiser",
 "C08": "a table of the expected attributes per configuration, recorded from fresh objects in a separate run of the same scenario",
 "C09": "a recording objective; box, call count and argument object identity",
 "C10": "minimum, prefix minimum and arg-minimum recomputed from the recorded evaluations",
 "C11": "for each trial every admissible combination of donors is tried; for swarm the velocity recursion is solved for the two random factors, which must lie in [0, 1]",
 "C12": "first generation below the threshold computed from the script; fresh object, same random state, for the histories",
 "C13": "universal kriging written with plain linear algebra (mc/ref.py)",
 "C14": "the first prediction of the same model; pointwise predictions",
 "C15": "a fresh model with the same random state, trained only on the last data set",
 "C16": "the same model class on the transformed data",
 "C17": "the reference likelihood (mc/ref.py); the scripted search's own record of which restart was best",
 "C18": "the training responses; sign, shape and noise-floor of the standard deviation",
 "C19": "closed form of hierarchical kriging (Han & Goertz) in mc/ref.py",
 "C20": "closed form of Kennedy-O'Hagan/Forrester co-kriging in mc/ref.py",
 "C21": "composition of reference models; closed-form least-squares factor; bumpiness recomputed",
 "C22": "reference single-fidelity kriging on the low-fidelity data",
 "C23": "direct formulas entry by entry, eigenvalues",
 "C24": "scipy.stats.norm expressions per point",
 "C25": "product over constraints of scipy.stats.norm.cdf times EI, per point",
 "C26": "per-fidelity published expressions, per point",
 "C27": "the arguments a scripted search received (box, function values) and its answers; grids for the real searches",
 "C28": "a list of (point, value) kept by the scripted problem; running minimum",
 "C29": "the same with the feasibility of every point",
 "C30": "the same per fidelity",
 "C31": "a direct simulation of the stop rule on the script",
 "C32": "the same build-and-run in a fresh state; Latin hypercube of the seed",
 "C33": "line data, labels and axes of the figure objects; directory listing before and after",
 "C34": "a plain list",
 "C35": "a freshly built object put through the same steps, without any copying",
 "C36": "a model built and trained that way from the start; call counts of the optimizers",
 "C37": "the same run without failures; the script's own list of completed evaluations",
 "C39": "the same call with every argument given by name",
 "C40": "the same history without the refused requests, on fresh objects",
 "C41": "the same run with plain, freshly allocated float arrays everywhere",
 "C43": "the criteria's definitions (C24-C26) over the lattice, from surrogates trained afresh on the problem's own record",
 "C44": "the recorded evaluations of every search; a scripted optimizer giving the same answer; a separate object under the same random state",
 "C42": "the values and points the scripts handed out up to the moment of printing",
 "C38": "the populations and values the objective itself recorded",
}
REACH = {
 "C17": "The restarts' results are choices, so best-first, best-last and ties in every order are all run.",
 "C27": "Both searches' answers are choices, so each fidelity wins, loses and ties at every place.",
 "C31": "The stop decision is taken on every error sequence, including those reached only on call two or three.",
}
lines = [open(os.path.join(V, "tools", "design_head.md")).read()]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    i = p["id"]
    m = importlib.import_module("mc.checks." + i)
    lines.append("### %s %s\n" % (i, p["title"]))
    lines.append(p["statement"] + "\n")
    lines.append("* *Decided by* exhaustive enumeration (`mc/checks/%s.py`): %s" % (i, " ".join(m.__doc__.split())))
    lines.append("* *Enumerated:* %s." % m.BOUNDS)
    lines.append("* *Oracle:* %s." % ORACLE.get(i, "see the check"))
    if m.ASSUMPTIONS:
        lines.append("* *Assumed:* %s." % "; ".join(m.ASSUMPTIONS))
    lines.append("* *Beyond the tests:* %s%s\n" % (p["why_tests_cant"], " " + REACH[i] if i in REACH else ""))
lines.append(open(os.path.join(V, "tools", "design_tail.md")).read())
lines.append("| planted bug | property (its quick check catches it) | needs |\n|---|---|---|")
S = os.path.join(V, "seeded")
row = []
for b in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, b, "meta.json")))
    row.append("| %s | %s | %s |" % (b, m["property"], " ".join(m["needs"].split()).replace("|", "/")))
lines[-1] = lines[-1] + "\n" + "\n".join(row) + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(lines))
