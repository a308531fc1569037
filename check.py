#!/usr/bin/env python3
"""python3 check.py P01   runs one check against /repo (VERIF_SEED, VERIF_TIER)."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, run, verdict
def main():
    pid = sys.argv[1]
    try:
        m = importlib.import_module("checks." + pid.lower())
        rc = m.main()
    except build.BuildError as e: print("BUILD ERROR\n" + str(e)); rc = 2
    except run.Stuck as e:
        ck = verdict.Check.current; ck.crashed(e.case, e.result, "a computation that does not end (confirmed with a higher limit; the rest of the run was given up)"); ck.finish(); rc = 1 if ck.viol else 0
    except run.HarnessError as e: print("HARNESS ERROR " + str(e)); rc = 2
    except (ValueError, KeyError, IndexError, TypeError, ZeroDivisionError, OverflowError) as e:
        # results came back that the oracle cannot even interpret (never so on results of the right shape)
        t = traceback.format_exc(); ck = verdict.Check.current
        if ck is None or not run.DONE or isinstance(e, build.BuildError): print(t); rc = 2
        else: ck.violation("malformed", "a result of the code under test is malformed: " + t.strip().splitlines()[-1], extra=t); ck.finish(); rc = 1
    except Exception: traceback.print_exc(); rc = 2
    build.prune()
    sys.stdout.flush(); return rc
sys.exit(main())
