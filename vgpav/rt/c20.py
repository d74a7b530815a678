import random
import numpy as np
from .common import *


def gen(rng, tier):
    for mod in MODELS:
        for s in (0, 1, 31415926535, int(rng.integers(1 << 40))):
            yield dict(model=mod, rs=s, seed=int(rng.integers(1 << 30)))
    for _ in range(10 if tier == "quick" else 300):
        yield dict(model=MODELS[rng.integers(4)], rs=int(rng.integers(1 << 50)),
                   seed=int(rng.integers(1 << 30)))


def check(c):
    mod = c["model"]
    outs = []
    for rnd in range(2):
        rng = np.random.default_rng(c["seed"])
        d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[mod]
        sig = float(rng.uniform(.5, 2)) if d == 1 else spd(rng, d)
        th = {"DW": 1., "OU": 2., "L63": np.array([10, 28, 2.667]), "L96": 8.}[mod]
        np.random.seed(rnd * 77 + 5)
        random.seed(rnd + 3)
        if rnd:
            np.random.normal(size=13)
            build("DW", 1., 1., 9)
            random.random()
        p = build(mod, sig, th, c["rs"], **({"dim_d": 10} if mod == "L96" else {}))
        out = []
        for rep_ in range(2):
            if rnd:
                np.random.normal(size=7)
                q = build("OU", 1., 1., c["rs"])
                with quiet():
                    q.make_trajectory(0, 1, .1)
                random.random()
            with quiet():
                p.make_trajectory(0., 2., .01)
            out.append(np.array(p.sample_path))
            if rnd:
                np.random.normal(size=3)
            with quiet():
                t, y, r = p.collect_obs(int(rng.integers(1, 20)), .3)
            out += [np.array(t), np.array(y), np.array(r)]
            out.append(np.array(p.rng.standard_normal(3)))
        outs.append(out)
    for a, b in zip(*outs):
        same("two runs with seed %d" % c["rs"], b, a)
    if c["rs"] < (1 << 60):
        p = build(mod, sig, th, c["rs"] + 1, **({"dim_d": 10} if mod == "L96" else {}))
        with quiet():
            p.make_trajectory(0., 2., .01)
        ok("another seed gives another path", not np.array_equal(p.sample_path, outs[0][0]))
    # initial moments of a simulation
    if c["seed"] % 2:
        res = []
        for rnd in range(2):
            from src.var_bayes.simulation import Simulation
            np.random.seed(rnd)
            prm = {"Model": mod if mod != "L96" else "L63", "Ode-method": "Euler", "Random-Seed": c["rs"],
                   "Time-window": {"t0": 0., "tf": 1., "dt": .01}, "Noise": {"sys": 1.5, "obs": .3},
                   "Observations": {"density": 4, "operator": None},
                   "Drift": {"theta": 1.2 if d == 1 else [10, 28, 2.667]},
                   "Prior": {"mu0": .5, "tau0": .5}, "Output_Name": "x"}
            s = Simulation("x")
            with quiet():
                s.setup(prm, None)
            res.append([np.array(s.m_data[k]) for k in ("m0", "s0", "obs_y", "obs_t", "obs_noise")]
                       + [np.array(s.m_data["model"].sample_path)])
        for a, b in zip(*res):
            same("two simulations with seed %d" % c["rs"], b, a)
