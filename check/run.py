#!/usr/bin/env python3
"""run.py PID [--tier quick|thorough]: 0 held, 1 violation, 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

CORE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C21"]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = common.Check(pid, tier, seed)
    try:
        if pid == "setup":
            common.build(chk)
            common.build(chk, common.IMPLICIT)
            return 0
        common.build(chk)
        if pid in CORE:
            import props_core as m
        elif pid in ("C14", "C15"):
            import props_wire as m
        elif pid in ("C18", "C19", "C20"):
            import props_net as m
        elif pid in ("C12", "C13"):
            import props_route as m
        else:
            m = __import__("props_" + pid.lower())
        return m.check(chk)
    except common.Broken as e:
        print("NO ANSWER:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(chk.work, ignore_errors=True)


sys.exit(main())
