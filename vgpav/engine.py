"""Deductive layer: python -m vgpav.engine Cxx tier out.json"""
import importlib
import json
import sys
import threading
import time


WORKERS = 6


def main(pid, tier, out, k=None, n=None):
    if k is None:
        return spread(pid, tier, out)
    t0 = time.time()
    from .ctr.base import Job
    from .eng import ctx as C, loops as Lp, prove
    job = Job(pid, tier)
    job.share = (int(k), int(n))
    mod = importlib.import_module("vgpav.ctr." + pid.lower())
    try:
        mod.contracts(job)
    except Exception as e:
        import traceback
        job.ob("contracts", False, "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1800:])
    obs = [job.obs[x] for x in job.order]
    res = dict(obligations=obs, functions=job.functions, level=job.level,
               trusted=COMMON_TRUST + job.trusted, assumptions=COMMON + job.assumptions,
               bounded=job.bounded,
               back_ends={"term normal form (VGPA engine)": prove.COUNT["eq"],
                          "z3 %s queries" % ".".join(map(str, C.z3().get_version()[:3])):
                              C.STATS["z3"]},
               solver_s=round(C.STATS["z3_s"], 3), loops=Lp.REPORT[:200],
               groups=job.count, wall_s=round(time.time() - t0, 2))
    with open(out, "w") as fh:
        json.dump(res, fh)


def spread(pid, tier, out):
    """Deal the groups out to worker processes and put the results together."""
    import os
    import subprocess
    t0 = time.time()
    n = max(1, min(WORKERS, os.cpu_count() or 1))
    outs = ["%s.%d" % (out, k) for k in range(n)]
    ps = [subprocess.Popen([sys.executable, "-B", "-m", "vgpav.engine", pid, tier, outs[k],
                            str(k), str(n)]) for k in range(n)]
    rc = [p.wait() for p in ps]
    parts = []
    for f in outs:
        if os.path.exists(f):
            with open(f) as fh:
                parts.append(json.load(fh))
            os.remove(f)
    if any(rc) or len(parts) != n:
        raise SystemExit("a worker ended with %s" % rc)
    res, obs = parts[0], {}
    for p in parts:
        for o in p["obligations"]:
            if o["name"] not in obs or obs[o["name"]]["ok"]:
                obs[o["name"]] = o
    for p in parts[1:]:
        for key in ("functions", "trusted", "assumptions", "bounded", "loops"):
            res[key] += [x for x in p[key] if x not in res[key]]
        for b, v in p["back_ends"].items():
            res["back_ends"][b] = res["back_ends"].get(b, 0) + v
        res["solver_s"] = round(res["solver_s"] + p["solver_s"], 3)
        if p["level"] != "proof":
            res["level"] = p["level"]
    if len(set(p["groups"] for p in parts)) != 1:
        obs["groups"] = {"name": pid + "/groups", "ok": False, "detail": "",
                         "why": "the workers saw different groups"}
    res["obligations"] = list(obs.values())
    res["wall_s"] = round(time.time() - t0, 2)
    with open(out, "w") as fh:
        json.dump(res, fh)


COMMON = ["machine arithmetic is treated as exact real arithmetic; a float literal denotes its "
          "decimal value",
          "divisors and arguments of logarithms are not zero where the code divides by them"]
COMMON_TRUST = ["the VGPA symbolic executor and normal form (vgpav/eng): extraction executes the "
                "functions of /repo after rewriting loops, displays, attribute assignments, "
                "literals and divisions into calls; numba decorators are dropped",
                "contracts assumed for the numpy/scipy functions used (vgpav/eng/npshim.py, "
                "linalg.py, rng.py)"]


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=sys.argv[1:6])
    t.start()
    t.join()
