#!/usr/bin/env python3
"""python3 run.py PROPERTY [quick|thorough]   or   python3 run.py --replay FILE"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import build, engine  # noqa: E402


def main():
    if sys.argv[1] == "--setup":
        import shutil
        missing = [t for t in ("clang++", "ninja", "swig", "ld.lld") if not shutil.which(t)]
        if missing:
            print("missing tools: " + " ".join(missing))
            return 1
        os.makedirs("build", exist_ok=True)
        os.makedirs("evidence", exist_ok=True)
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        return engine.check(r["property"], r["tier"], r["seed"], only=[(r["family"], r["index"])])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return engine.check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))


try:
    sys.exit(main())
except build.BuildError as e:
    print("BUILD FAILED\n" + str(e))
    sys.exit(2)
