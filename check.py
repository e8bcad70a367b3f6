#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property of /repo by static analysis of its source."""
import importlib
import os
import sys
import traceback
import warnings

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")

from hvdlint import framework  # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = importlib.import_module(f"hvdlint.checks.{prop.lower()}")
    try:
        return framework.run_check(module, prop, tier, seed)
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={prop} internal error")
        return 2


if __name__ == "__main__":
    sys.exit(main())
