#!/usr/bin/env python3
"""python3 run.py --property C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa.report import Check

    c = Check(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module("sa.props." + a.property.lower())
    mod.obligations(c)
    return c.finish()


if __name__ == "__main__":
    # deep recursive terms need a large stack; the main thread keeps the signals
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if os.environ.get("SA_STACK") != "1":
            os.environ["SA_STACK"] = "1"
            os.environ.setdefault("PYTHONHASHSEED", "0")
            os.execv(sys.executable, [sys.executable] + sys.argv)
    except (ValueError, OSError):
        pass
    sys.exit(main())
