#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib
import os
import sys
import time

sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.framework import Report, finish  # noqa: E402
from sa.program import Program, AnalysisBroken  # noqa: E402


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    t0 = time.time()
    try:
        program = Program()
        rep = Report(prop)
        mod = importlib.import_module("sa.rules." + prop.lower())
        mod.run(program, rep, tier)
    except AnalysisBroken as x:
        print("ANALYSIS-BROKEN: %s" % x)
        return 2
    return finish(rep, program, t0, tier, seed)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    th = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    th.start()
    th.join()
    sys.stdout.flush()
    sys.exit(res[0] if res else 3)
