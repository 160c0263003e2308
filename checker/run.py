#!/usr/bin/env python3
"""Entry point: python3 checker/run.py <PROPERTY> [quick|thorough]"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    import core
    from program import AnalysisError
    try:
        ctx = core.Ctx(prop, tier)
        mod = importlib.import_module("rules." + prop.lower())
        mod.run(ctx)
        return ctx.finish()
    except AnalysisError as err:
        print("ANALYSIS-ERROR %s: %s" % (prop, err))
        return 2


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def go():
        try:
            rc.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 3)
