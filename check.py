#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("_MC_REEXEC") != "1":
    os.environ["_MC_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", "-W", "ignore"] + sys.argv)

from mc import core  # noqa: E402

core.setup_import()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    mod = None
    for f in sorted(os.listdir(os.path.join(VERIF, "mc", "props"))):
        if f.lower().startswith(a.pid.lower() + "_"):
            mod = importlib.import_module("mc.props." + f[:-3])
    if mod is None:
        print("no such property", a.pid)
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        out, msg, key = core.judge_one(mod.judge, d["kind"], d["case"], 300)
        if msg is None:
            print("replay: property holds on this case")
            return 0
        print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
        print("   " + msg)
        return 1
    ctx = core.Ctx(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    if a.workers:
        real = ctx.explore
        ctx.explore = lambda j, d, **kw: real(j, d, **{**kw, "workers": a.workers})
    mod.run(ctx)
    return ctx.finish()


sys.exit(main())
