#!/usr/bin/env python3
"""Entry point: check.py <property> ; tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2 and sys.argv[2] == "--thorough": os.environ["VERIF_TIER"] = "thorough"
import vf
def main():
    pid = sys.argv[1]
    try:
        import props
        return getattr(props, "check_" + pid)()
    except vf.CheckError as e:
        print("CHECK ERROR %s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); return 2
sys.exit(main())
