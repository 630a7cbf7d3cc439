#!/usr/bin/env python3
"""Mutation run: which one-token changes of the library do the checks miss?

tools/mutate.py OUT.jsonl [--jobs N] [--files substring] [--every K]
Works on copies only; survivors are read by hand (many are equivalent).
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/mfpml/"
MAP = {
    "design_of_experiment/sf_samplers.py": "C01 C02 C03 C39",
    "design_of_experiment/mf_samplers.py": "C01 C04 C03 C02 C39 C40",
    "core/data.py": "C34",
    "problems/functions.py": "C08 C07 C06 C09 C39 C35",
    "problems/mf_functions.py": "C08 C05 C06 C07 C33",
    "problems/sf_functions.py": "C08 C05 C06 C07 C33",
    "problems/sf_cons_functions.py": "C08 C05 C06 C07 C29",
    "models/basis_functions.py": "C23 C14 C18",
    "models/kernels.py": "C23 C39 C14 C16 C17",
    "models/gaussian_process.py": "C39 C36 C16 C13 C14 C17 C15 C22 C24 C21 C37",
    "models/mf_gaussian_process.py": "C39 C36 C40 C16 C22 C18 C15 C26",
    "models/hierarchical_kriging.py": "C39 C36 C18 C16 C19 C17 C15 C22",
    "models/scale_kriging.py": "C39 C36 C21 C16 C17 C15 C22 C37",
    "models/co_kriging.py": "C39 C36 C20 C40 C16 C17 C22 C15 C26",
    "optimization/evolutionary_algorithms.py": "C12 C39 C10 C09 C11 C38 C40 C42 C44",
    "optimization/sf_uncons_acqusitions.py": "C39 C24 C27 C43",
    "optimization/sf_cons_acqusitions.py": "C39 C25 C27 C43",
    "optimization/mf_acqusitions.py": "C39 C26 C27 C40 C43",
    "optimization/sf_uncons_bo.py": "C39 C31 C28 C37 C32 C42 C43",
    "optimization/sf_cons_bo.py": "C39 C31 C29 C37 C32 C42 C43",
    "optimization/mf_uncons_bo.py": "C39 C40 C31 C30 C37 C32 C42 C43",
    "visualization/functions_visulaization.py": "C33",
    "visualization/models_visualization.py": "C33",
    "visualization/samplers_visualization.py": "C33",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
NAME = dict(min="max", max="min", argmin="argmax", argmax="argmin", cdf="pdf",
            pdf="cdf", sum="mean", mean="sum", maximum="minimum", cos="sin",
            sin="cos", vstack="hstack", hstack="vstack", lb="ub", ub="lb",
            hf="lf", lf="hf", prod="sum", std="var")


def mutants(text):
    tree = ast.parse(text)
    lines = text.split("\n")
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)
    raw = text.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, a, b, new):
        out.append((n.lineno, raw[a:b].decode(), new, a, b))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body \
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            put(n, a, b, " %s " % CMP[type(n.ops[0])])
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b].decode()
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            if mid.count(old) == 1:
                put(n, a, b, mid.replace(old, BIN[type(n.op)]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            put(n, a, b, raw[a + 1:b].decode())
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = span(n)
            put(n, a, b, repr(n.value + 1) if isinstance(n.value, int) else
                repr(n.value * 1.1 if n.value else 0.1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            put(n, a, b, repr(not n.value))
        elif isinstance(n, ast.Attribute) and n.attr in NAME:
            a, b = span(n)
            put(n, b - len(n.attr), b, NAME[n.attr])
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == "copy" and not n.args:
            a, b = span(n)
            put(n, a, b, raw[a:span(n.func.value)[1]].decode())
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            put(n, a, b, "(not (%s))" % raw[a:b].decode())
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and id(n) not in docs:
            a, b = span(n)
            put(n, a, b, "pass")
    return raw, sorted(set(out), key=lambda m: (m[3], m[4], m[2]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--files", default="")
    ap.add_argument("--every", type=int, default=1)
    a = ap.parse_args()
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    pool = queue.Queue()
    for i in range(a.jobs):
        d = os.path.join(base, str(i))
        shutil.copytree("/repo/src", d + "/repo/src", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
        pool.put(d)
    work = []
    for f in MAP:
        if any(s in f for s in a.files.split(",")):
            raw, ms = mutants(open("/repo/" + S + f).read())
            work += [(f, raw, m) for m in ms[::a.every]]
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(ln)["key"]) for ln in open(a.out)}

    def one(w):
        f, raw, (line, old, new, i, j) = w
        key = (f, i, j, new)
        if key in done:
            return None
        text = raw[:i] + new.encode() + raw[j:]
        try:
            compile(text, f, "exec")
        except SyntaxError:
            return None
        d = pool.get()
        p = d + "/repo/" + S + f
        try:
            open(p, "wb").write(text)
            env = dict(os.environ, MFPML_REPO=d + "/repo", MC_WORKERS="1", PYTHONDONTWRITEBYTECODE="1",
                       OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=d)
            by = None
            for c in MAP[f].split():
                try:
                    r = subprocess.run(["nice", "./run.py", c, "quick"], cwd=d + "/verif", env=env,
                                       capture_output=True, text=True, timeout=1500).returncode
                except subprocess.TimeoutExpired:
                    r = 124
                if r:
                    by = c if r == 1 else "%s:%d" % (c, r)
                    break
            return dict(key=key, file=f, line=line, old=old[:80], new=new[:80], by=by)
        finally:
            open(p, "wb").write(raw)
            pool.put(d)
    print(len(work), "mutants", flush=True)
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
            for r in ex.map(one, work):
                if r:
                    out.write(json.dumps(r) + "\n")
                    out.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


main()
