import os
import tempfile
import numpy as np
from pathlib import Path
from .common import *


def gen(rng, tier):
    for name in ("plain", "with space", "  trimmed  ", "a b  c", "dotted.v1.2", "under_score",
                 "Sim.h5", "ünï", "-dash x", "tab\tname", " lead.ing 0.5 "):
        yield dict(name=name, seed=int(rng.integers(1 << 30)))
    for _ in range(10 if tier == "quick" else 500):
        yield dict(name="".join(chr(int(v)) for v in rng.choice(list(b"abcXYZ019 _.-"), 9)).lstrip(".-") or "q",
                   seed=int(rng.integers(1 << 30)))


def check(c):
    from src.var_bayes import simulation as sm
    rng = np.random.default_rng(c["seed"])
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            with quiet():
                s = sm.Simulation(c["name"])
                s.save()
            ok("nothing written without results", os.listdir(tmp) == [], os.listdir(tmp))
            raises("load without a name", lambda: sm.load())
            raises("load without a name", lambda: sm.load(None))
            fname = c["name"].strip().replace(" ", "_") + ".h5"
            for rnd in range(2):
                n, d = int(rng.integers(1, 40)), int(rng.integers(1, 5))
                out = {"at": rng.normal(size=(n, d, d)), "bt": rng.normal(size=n),
                       "fx": [float(rng.normal()), np.float64(3.25), np.array(1.5), 7][rng.integers(4)],
                       "m0": [.5, rng.normal(size=d)][rng.integers(2)],
                       "s0": .2, "mt": rng.normal(size=(n, d)), "psit": 1e-300 * rng.normal(size=(n, d, d)),
                       "k%d" % rnd: np.arange(n), "Efx": rng.normal(size=(1,)) * 1e200,
                       "lamt": np.asfortranarray(rng.normal(size=(d, n))),
                       "Edf": rng.normal(size=(2 * n, d))[::2],
                       "none": np.zeros((0, d)), "zero": np.zeros(n), "one": np.ones((1, 1))}
                want = {k: np.array(np.atleast_1d(v), copy=True) for k, v in out.items()}
                s.output.clear()
                s.output.update(out)
                with quiet():
                    s.save()
                ok("file name", os.listdir(tmp) == [fname], (os.listdir(tmp), fname))
                for arg in (fname, Path(tmp) / fname):
                    with quiet():
                        got = sm.load(arg)
                    ok("entries", set(got) == set(want), (sorted(got), sorted(want)))
                    for k, w in want.items():
                        g = np.asarray(got[k])
                        ok("shape of %s" % k, g.shape == w.shape, (g.shape, w.shape))
                        ok("value of %s" % k, np.array_equal(g.astype(float), w.astype(float)))
                for k, w in want.items():
                    ok("results kept after saving",
                       np.array_equal(np.atleast_1d(s.output[k]).astype(float), w.astype(float)))
        finally:
            os.chdir(old)
