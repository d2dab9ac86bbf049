#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property on /repo's tree."""
import argparse, importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "tools"), os.path.join(here, "checks")]
import vlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    ck = vlib.Check(a.id, a.tier)
    try:
        importlib.import_module(a.id.lower()).run(ck)
    except vlib.CheckError as e:
        print("CHECK-ERROR", e)
        if ck.violations:
            return ck.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ck.finish()


sys.exit(main())
