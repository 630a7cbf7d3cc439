#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough]   decide one property on /repo
run.py replay <file>                      re-execute one recorded violation"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        pid, tier = rec["property"], rec["tier"]
    else:
        rec, pid = None, sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
            "VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from mc import core, env
    try:
        env.load()
        mod = importlib.import_module("mc.checks." + pid)
    except BaseException as e:   # the package itself does not import
        if rec is None and not isinstance(e, KeyboardInterrupt):
            import traceback
            traceback.print_exc()

            def boom(ctx):
                raise e
            scen = [("import", boom)]
            return core.run_check(pid, scen, tier, seed, [], "import", split=0)
        raise
    scen = mod.scenarios(tier)
    if rec is not None:
        fn = dict(scen)[rec["scenario"]]
        import shutil, tempfile
        d = tempfile.mkdtemp(prefix="mfpml-replay-")
        os.chdir(d)
        out, sys.stdout = sys.stdout, open(os.devnull, "w")
        ctx, err = core._execute(fn, rec["path"])
        sys.stdout = out
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
        for c in ctx.choices:
            print("  %s=%s" % c)
        print("reproduced: " + err if err else "not reproduced")
        return 1 if err else 0
    return core.run_check(pid, scen, tier, seed,
                          getattr(mod, "ASSUMPTIONS", []),
                          mod.BOUNDS, split=getattr(mod, "SPLIT", 2))


sys.exit(main())
