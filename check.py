#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] : decide one property on /repo's current source by static analysis."""
import argparse
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from psa.loader import AnalysisError  # noqa: E402
from psa.report import Report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rep = Report(a.prop, ROOT, a.tier, seed)
    try:
        mod = importlib.import_module("psa.rules.%s" % a.prop.lower())
        mod.run(rep, a.repo, a.tier)
        return rep.finish()
    except AnalysisError as e:
        if rep.viol:  # what was found stands, whatever else could not be decided
            print("ANALYSIS-INCOMPLETE property=%s %s" % (a.prop, e))
            return rep.finish()
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % a.prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
