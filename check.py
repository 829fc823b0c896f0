#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree statically."""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vt"))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from front import Broken
    import report
    try:
        mod = importlib.import_module("props." + prop.lower())
        rep = report.Report(prop, tier)
        mod.check(rep, tier)
        return rep.finish("other", mod.TECHNIQUE)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
