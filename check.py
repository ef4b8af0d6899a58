#!/usr/bin/env python3
import sys, os, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import build, report
def main():
    pid = sys.argv[1]
    ck = report.Check(pid)
    mod = importlib.import_module(pid.lower())
    try:
        mn = mod.run(ck)
        return ck.finish(mn or 1)
    except build.Broken as e:
        print("ANALYSIS BROKEN: %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
