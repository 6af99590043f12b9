#!/usr/bin/env python3
"""Usage: python3 check.py <property id>   (VERIF_SEED, VERIF_TIER=quick|thorough)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import core


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module("harness." + pid.lower())
        ctx = core.Ctx(pid)
        mod.check(ctx)
        return ctx.finish()
    except core.ToolError as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
