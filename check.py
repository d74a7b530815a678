#!/usr/bin/env python3
"""Decide one property on /repo's working tree.

  check.py Cxx                 (tier and seed from VERIF_TIER and VERIF_SEED)
  check.py --replay FILE       run the case of a replay file against the real code

Exit 0: every obligation was discharged and no run-time contract failed.
Exit 1: a line VIOLATION property=<id> replay=<path> was printed.
"""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
LIMIT = {"quick": dict(rt=150, eng=780), "thorough": dict(rt=700, eng=800)}


def child(args, budget, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="2")
    env["PYTHONPATH"] = HERE
    return subprocess.Popen([PY, "-B", "-m"] + args, cwd=HERE, env=env,
                            stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                            start_new_session=True)


def finish(proc, until):
    try:
        proc.wait(max(1, until - time.time()))
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.wait()
        return False


def load(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def known(pid):
    """The listed findings of this property: (case identity, text)."""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as fh:
            for line in fh:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.split(None, 2)[2].strip())
    except OSError:
        pass
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in LIMIT else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    lim = LIMIT[tier]
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    tmp = os.path.join(ev_dir, ".%s.%d" % (pid, os.getpid()))
    rt_out, eng_out, log_path = tmp + ".rt", tmp + ".eng", tmp + ".log"
    has_eng = os.path.exists(os.path.join(HERE, "vgpav", "ctr", pid.lower() + ".py"))
    with open(log_path, "w") as log:
        # The run-time layer stops between cases at its budget; the hard limit leaves room.
        p_rt = child(["vgpav.runtime", pid, tier, str(seed), str(lim["rt"] * 0.6), rt_out],
                     lim["rt"], log)
        p_en = child(["vgpav.engine", pid, tier, eng_out], lim["eng"], log) if has_eng else None
        rt_ok = finish(p_rt, t0 + lim["rt"] + 130)
        rt = load(rt_out)
        # A failing input settles it: the proof is then only waited for a while.
        until = t0 + (lim["eng"] if not (rt and rt["failed"]) else min(lim["eng"], 240))
        en_ok = finish(p_en, max(until, time.time() + 1)) if p_en else True
    en = load(eng_out)
    with open(log_path) as fh:
        log_text = fh.read()[-4000:]
    for p in (rt_out, eng_out, log_path):
        if os.path.exists(p):
            os.remove(p)
    if rt is None or rt.get("error"):
        print("check error: run-time layer gave no answer", (rt or {}).get("error"), log_text)
        return 3
    level = "exploration"
    violations = []
    cov = dict(evaluations=rt["ran"], distinct_nontrivial=rt.get("distinct", rt["ran"]),
               rule="random inputs from the contract's precondition; every case calls the real "
                    "functions of /repo and evaluates the postcondition; a case counts as "
                    "non-trivial when it is a distinct input",
               samples=rt["samples"][:6])
    for f in rt["failed"]:
        violations.append(dict(kind="input", property=pid, case=f["case"], why=f["why"]))
    assumptions = []
    if has_eng:
        if en is None:
            en = dict(obligations=[dict(name="%s/engine" % pid, ok=False,
                                        why="the verifier ended without an answer" +
                                            ("" if en_ok else " (time limit)"), detail=log_text)],
                      trusted=[], assumptions=[], functions=[])
        obs = en["obligations"]
        if not obs:
            obs = [dict(name="%s/none" % pid, ok=False, why="no obligation was generated")]
        bad = [o for o in obs if not o["ok"]]
        level = en.get("level", "proof")
        stand_in = [o for o in obs if o["name"].endswith("(bounded)")]
        cov.update(obligations=len(obs) - len(stand_in),
                   discharged=sum(o["ok"] for o in obs if o not in stand_in),
                   bounded_stand_ins=[o["name"] for o in stand_in],
                   checker_cmd="VERIF_TIER=%s python3 check.py %s" % (tier, pid),
                   trusted_base=en.get("trusted", []),
                   functions_under_contract=en.get("functions", []),
                   obligation_names=[o["name"] for o in obs],
                   undischarged=[dict(name=o["name"], why=o.get("why", "")) for o in bad],
                   back_ends=en.get("back_ends", {}), solver_s=en.get("solver_s", 0.0),
                   bounded=en.get("bounded", []))
        assumptions = en.get("assumptions", [])
        if bad and not rt["failed"]:
            violations.append(dict(kind="obligation", property=pid,
                                   obligation=bad[0]["name"], why=bad[0].get("why", ""),
                                   detail=bad[0].get("detail", ""),
                                   all=[o["name"] for o in bad]))
    listed = known(pid)
    shown = []
    for v in violations:
        ident = json.dumps(v.get("case"), sort_keys=True) if v["kind"] == "input" else v["obligation"]
        hit = [k for k in listed if k.startswith(ident)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            shown.append(v)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(shown))
    with open(os.path.join(ev_dir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not shown:
        print("%s: %d run-time cases, %d/%d obligations, %.1f s" % (
            pid, rt["ran"], cov.get("discharged", 0), cov.get("obligations", 0), ev["wall_s"]))
        return 0
    v = shown[0]
    rp_dir = os.path.join(HERE, "replays")
    os.makedirs(rp_dir, exist_ok=True)
    path = os.path.join(rp_dir, "%s-%s-%d.json" % (pid, tier, seed))
    with open(path, "w") as fh:
        json.dump(v, fh, indent=1)
    if v["kind"] == "input":
        print("%s: %s" % (pid, v["why"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    else:
        print("%s: obligation %s: %s" % (pid, v["obligation"], v["why"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    return 1


def replay(path):
    v = load(path)
    if v is None:
        print("no such replay file")
        return 2
    if v["kind"] != "input":
        print(json.dumps(v, indent=1))
        return 1
    code = ("import json,sys; from vgpav import runtime as r; import importlib;"
            "v=json.load(open(sys.argv[1]));"
            "m=importlib.import_module('vgpav.rt.'+v['property'].lower());"
            "w=r.run_case(m,v['case'],600); print(w or 'the contract holds'); sys.exit(bool(w))")
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.call([PY, "-B", "-c", code, os.path.abspath(path)], cwd=HERE, env=env)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
