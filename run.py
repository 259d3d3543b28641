#!/usr/bin/env python3-vt
"""run.py <PROPERTY> [quick|thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import threading
    from aerostat.report import Check
    res = []

    def go():
        mod = importlib.import_module("aerostat.props." + prop.lower())
        c = Check(prop, tier, seed)
        mod.run(c)
        res.append(c.finish())
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res[0] if res else 3


if __name__ == "__main__":
    sys.exit(main(sys.argv))
