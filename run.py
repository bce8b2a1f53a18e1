#!/usr/bin/env python
"""Entry point: run.py <property> <quick|thorough>.  Exit 0 held, 1 violation, 2 machinery failure."""
import importlib
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ["HAMILTON_TELEMETRY_ENABLED"] = "false"
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vp.report import Report
    rep = Report(pid, tier, seed)
    try:
        mod = importlib.import_module("vp.checks." + pid.lower())
        mod.check(rep, tier, seed)
        return rep.finish()
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
