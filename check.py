#!/usr/bin/env python3
"""Driver: check.py <property id> [--tier quick|thorough]  (or `all`)."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from vstatic import report  # noqa: E402
from vstatic.model import AnalysisBroken, Program  # noqa: E402


def run(pid, tier, seed, prog=None):
    mod = importlib.import_module(f"vstatic.rules.{pid.lower()}")
    rep = report.Report(pid, tier, seed)
    prog = prog or Program()
    try:
        mod.check(prog, rep)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN {pid}: {e}", file=sys.stderr)
        if not rep.findings:
            return 2
    return report.finish(rep, prog.digest, len(prog.modules), len(prog.funcs))


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2 :]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ids = argv or ["all"]
    if ids == ["all"]:
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "vstatic", "rules")
        ids = sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == "p" and f[1:3].isdigit())
    rc = 0
    for pid in ids:
        try:
            rc = max(rc, run(pid.upper(), tier, seed))
        except Exception:  # noqa: BLE001
            traceback.print_exc()
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
