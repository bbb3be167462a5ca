"""Entry point: run.py CNN [--replay FILE] [--section a,b]"""
import os
import sys
# the code under test prints; keep the real stdout for verdicts only
real = os.fdopen(os.dup(1), "w", buffering=1)
if not os.environ.get("VERIF_SHOW"):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)


def go():
    pid = sys.argv[1].upper()
    try:
        from vlib import harness
        mod = importlib.import_module("checks." + pid.lower())
    except Exception:
        import traceback
        traceback.print_exc()
        # the library cannot even be imported the way its documentation says
        print("error: could not load check or library", file=real)
        return 3
    return harness.main(mod.CHECK, sys.argv[2:], real)


if __name__ == "__main__":
    rc = go()
    real.flush()
    sys.stderr.flush()
    os._exit(rc)
