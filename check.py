#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [quick|thorough]: decides one property on /repo's current source."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def partial(C):
    """an analysis that broke off still reports the violations it established before"""
    try:
        if C is not None and any(not o[2] for o in C.obligations) and C.finish() == 1: return 1
    except Exception: pass
    return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from sa import build, report, trace
    C = None
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        prog = build.load()
        C = report.Check(pid, prog, tier)
        mod.run(C)
        rc = C.finish()
    except trace.Lost as e:
        # the interpretation of consistent data does not end or depends on memory that was never stored
        C.ob('every evaluation ends and depends on stored data only', 'ends', False, e.where, str(e))
        sys.exit(C.finish())
    except build.AnalysisBroken as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e))
        sys.exit(partial(C) or 3)
    except Exception:
        traceback.print_exc()
        sys.exit(partial(C) or 4)
    sys.exit(rc)


main()
