"""Executes sessions (sequences of events) on the real library and records what it did.

usage: interp.py IN.ndjson OUT.ndjson
Every line of IN is a session {"name", "ev": [event, ...]}.  An event names a public operation, its exact
arguments and the names of its operands; the interpreter performs it on a heap of live objects and adds
"o" (the observation) and "exc" ("" or the exception raised).
"""
import faulthandler
import json
import os
import resource
import signal
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np

np.seterr(all="ignore")

FRAME = bool(os.environ.get("RIGEO_FRAME"))
if FRAME:
    import frame  # noqa: E402

    frame.install()

if os.environ.get("RIGEO_COV"):
    import cov  # noqa: E402

    cov.install(os.environ["RIGEO_COV"])

from ops import OPS  # noqa: E402
from ops.base import Env  # noqa: E402


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def in_library(ex):
    """Did the exception pass through the library's own code (or come from a constructor's signature)?"""
    tb = ex.__traceback__
    while tb is not None:
        if f"{os.sep}rigeo{os.sep}" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


SLOW = [0]          # operations that did not come back in time, so far


def run_session(ses, limit):
    env = Env(ses)
    out = []
    fr = frame.Frame() if FRAME else None
    for ev in ses["ev"]:
        ev = dict(ev)
        obs, exc = {"x": {"t": "none", "v": "", "sh": []}}, ""
        signal.alarm(limit)
        faulthandler.dump_traceback_later(limit + 20, exit=True)   # stuck inside native code
        try:
            r = OPS[ev["op"]](env, {"id": "_", **ev})
            if r is not None:
                obs = r
                exc = getattr(r, "exc", "")      # an observation made although the call raised
        except Timeout:
            exc = "Timeout"
            SLOW[0] += 1
        except Exception as ex:
            exc = type(ex).__name__
            if not in_library(ex):
                exc = "NotFromLibrary"           # the harness could not handle what it was given
            if exc == "RuntimeError" and "Numerical inconsistency" in str(ex):
                exc = "NumericalRefusal"     # cdd's floating-point arithmetic gave up, and said so
            if os.environ.get("RIGEO_TB"):
                import traceback

                traceback.print_exc()
            ev["msg"] = f"{type(ex).__name__}: {ex}"[:200]
        finally:
            signal.alarm(0)
            faulthandler.cancel_dump_traceback_later()
        if FRAME:
            signal.alarm(limit)
            try:
                ev["fr"] = fr.after(env, ev, obs, exc, lambda: OPS[ev["op"]](env, ev))
            except (Timeout, MemoryError) as ex:
                # looking at the objects takes milliseconds unless one of them is growing out of hand
                SLOW[0] += 1
                exc = type(ex).__name__
                ev["fr"] = {"new": [], "chg": [], "args": [], "res": [], "rep": [[["answers"], [exc]]]}
            finally:
                signal.alarm(0)
            obs = {}
        ev["o"] = obs
        ev["exc"] = exc
        out.append(ev)
        if exc and "id" in ev or exc in ("Timeout", "MemoryError") and FRAME:
            break
    return {"name": ses["name"], "ev": out}


def main():
    src, dst = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))     # a runaway allocation raises MemoryError
    limit = int(os.environ.get("RIGEO_EVENT_LIMIT", "60"))
    print("INTERP READY", flush=True)
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            ses = json.loads(line)
            if SLOW[0] > 8:
                # the finding stands; do not spend the rest of the time on waiting
                g.write(json.dumps({"name": ses["name"], "ev": []}) + "\n")
            else:
                g.write(json.dumps(run_session(ses, limit if SLOW[0] < 3 else min(limit, 10))) + "\n")
            g.flush()


if __name__ == "__main__":
    main()
