#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   -- static analysis of /repo"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from rtsa.model import AnalysisBroken, Project  # noqa: E402

MODULES = ["core", "scatterfn", "units", "caches", "fitting", "pipeline", "resources", "idents", "effects", "process", "export", "recreate", "stored", "config", "aliasing", "expansion", "finalout"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    for m in MODULES:
        mod = importlib.import_module(f"checks.{m}")
        if pid in mod.CHECKS:
            try:
                rep = mod.CHECKS[pid](Project(), tier)
            except AnalysisBroken as e:
                print(f"ANALYSIS-BROKEN property={pid}: {e}")
                return 2
            except Exception:
                traceback.print_exc()
                print(f"ANALYSIS-BROKEN property={pid}: internal error")
                return 2
            return rep.finish()
    print(f"unknown property {pid}")
    return 2


if __name__ == "__main__":
    sys.exit(main())
