#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and runs checks against them.

tools/seedtest.py [--no-tests] [--checks own|all|C01,C02] [--jobs N] [id ...]
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           VERIF_SEED="1", VERIF_TIER="quick")


def sh(cmd, cwd, env=ENV, t=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(args):
    sid, a = args
    src = os.path.join(V, "seeded", sid)
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(d, "repo")
    demo = os.path.join(d, "demo")
    out = dict(id=sid)
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        meta = json.load(open(os.path.join(src, "meta.json")))
        out["property"] = meta["property"]
        out["demo_clean"], _ = sh(["bash", demo + "/demo.sh"], repo)
        rc, o = sh(["git", "apply", os.path.join(src, "patch.diff")], repo)
        if rc:
            out["apply"] = o
            return out
        out["demo_bug"], _ = sh(["bash", demo + "/demo.sh"], repo)
        if a.tests:
            e = dict(ENV, PYTHONPATH=repo + "/src", MPLCONFIGDIR="/opt/venv/mplconfig")
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "addopts=",
                        "--disable-warnings", "--timeout=300", "tests"], repo, e)
            out["tests"] = o.strip().split("\n")[-1][:80]
        ids = [meta["property"]] if a.checks == "own" else \
            ["C%02d" % i for i in range(1, 35)] if a.checks == "all" else \
            a.checks.split(",") if a.checks else []
        caught = []
        ver = os.path.join(d, "verif")
        shutil.copytree(V, ver, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
        for c in ids:
            rc, o = sh(["./run.py", c, "quick"], ver, dict(ENV, MFPML_REPO=repo))
            if rc == 1 and "VIOLATION property=%s" % c in o:
                caught.append(c)
                if c == meta["property"]:
                    m = re.search(r"  scenario .*", o)
                    out["first"] = m.group(0)[:230] if m else ""
            elif rc:
                out.setdefault("broken", []).append((c, rc, o[-300:]))
        out["caught"] = caught
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", dest="tests", action="store_false")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, [(i, a) for i in ids]):
            print(json.dumps(r), flush=True)
