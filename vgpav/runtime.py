"""Run the run-time contract of one property; in a child process."""
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


class Late(Exception):
    pass


def _alarm(*_):
    raise Late()


def run_case(mod, case, limit):
    """None, or the text of the failure."""
    from .rt.common import Fail
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.check(case)
    except Fail as e:
        return str(e)
    except Late:
        return "no answer within %d s" % limit
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/src/" in f.filename or f.filename.endswith("vgpa_main.py")]
        loc = " at %s:%d" % (where[-1].filename, where[-1].lineno) if where else \
            " at %s:%d" % (tb[-1].filename, tb[-1].lineno)
        return "unexpected %s: %s%s" % (type(e).__name__, str(e)[:300], loc)
    finally:
        signal.alarm(0)
    return None


def main(pid, tier, seed, budget, out):
    """Write {"ran", "failed": [{case, why}], "samples"} to the file out."""
    import numpy as np
    warnings.simplefilter("ignore")
    t0 = time.time()
    res = dict(ran=0, failed=[], samples=[], done=False)
    try:
        mod = importlib.import_module("vgpav.rt." + pid.lower())
    except Exception as e:
        res["error"] = "harness: %r" % e
        json.dump(res, open(out, "w"))
        return
    rng = np.random.default_rng([seed, int(pid[1:])])
    for case in mod.gen(rng, tier):
        why = run_case(mod, case, 120)
        res["ran"] += 1
        if len(res["samples"]) < 4 or (res["ran"] % 97 == 0 and len(res["samples"]) < 10):
            res["samples"].append(case)
        if why is not None:
            res["failed"].append(dict(case=case, why=why))
            break
        if time.time() - t0 > budget:
            break
    else:
        res["done"] = True
    res["wall"] = time.time() - t0
    with open(out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5])
