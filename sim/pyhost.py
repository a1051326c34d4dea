"""Process that runs simulations of the Python module: a fork server; each forked child executes one workload."""
import ctypes, importlib, json, os, sys, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
MODDIR = sys.argv[1]
WORKMOD = sys.argv[2]

import numpy as np  # noqa: E402
import simapi  # noqa: E402

work = importlib.import_module(WORKMOD)
lib = simapi.lib
simapi.MODDIR = MODDIR


def main():
    lib.sim_forkserver()
    # ---- child from here on: exactly one simulated execution
    text = lib.sim_workload().decode()
    w = json.loads(text)
    try:
        if not getattr(work, "MANUAL_BEGIN", False):
            simapi.begin()
        work.run(w)
        simapi.finish("ok", "")
    except simapi.Violation as v:
        simapi.finish(v.cls, v.msg)
    except BaseException as e:  # noqa
        simapi.finish("exception", "%s: %s | %s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]).replace("\n", " ")))


main()
