#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os, shutil, sys, subprocess, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common


def main():
    pid = sys.argv[1]
    if pid == "setup":   # the checks build what they need themselves; see that they can
        missing = [t for t in ("g++", "make", "python3", "bash", "valgrind") if not shutil.which(t)]
        print("missing: " + " ".join(missing) if missing else "ready")
        return 1 if missing else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks
    try:
        return checks.CHECKS[pid](common.Check(pid, tier, seed))
    except common.NoVerdict as e:
        common.log(f"{pid}: no verdict: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        common.log(f"{pid}: no verdict: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
