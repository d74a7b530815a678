import numpy as np
from .common import *


def gen(rng, tier):
    for n in (1, 2, 3, 7, 50):
        for kind in ("none", "empty", "first", "last", "both", "all", "some"):
            yield dict(n=n, kind=kind, nd=int(rng.integers(1, 4)), seed=int(rng.integers(1 << 30)))
    for _ in range(100 if tier == "quick" else 8000):
        yield dict(n=int(rng.integers(1, 120)), kind="some", nd=int(rng.integers(1, 4)),
                   seed=int(rng.integers(1 << 30)))


def check(c):
    from src.numerics.utilities import my_trapz
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    shape = (n,) + tuple(int(v) for v in rng.integers(1, 4, c["nd"] - 1))
    f = 3 * rng.normal(size=shape)
    f, = whole(rng.random() < .15, f)
    dx = float(np.exp(rng.uniform(-5, 1)))
    o = {"none": None, "empty": [], "first": [0], "last": [n - 1],
         "both": sorted({0, n - 1}), "all": list(range(n)),
         "some": obs_sets(rng, n, int(rng.integers(0, n + 1)))}[c["kind"]]
    if o is not None:
        o = [list(map(int, o)), np.array(o, dtype=int), tuple(map(int, o))][rng.integers(3)]
    keep = frozen(f) + ([] if o is None else frozen(o))
    with quiet():
        got = my_trapz(f, dx, o)
        got2 = my_trapz(f, obs_t=o)
        got3 = my_trapz(f)
    unchanged("my_trapz", keep, f, *([] if o is None else [o]))
    want = (f[:-1] + f[1:]).sum(axis=0) / 2
    if n == 1:
        got, got2, got3 = (np.broadcast_to(g, shape[1:]) for g in (got, got2, got3))
    sc = np.abs(f).sum() + 1
    close("piecewise integral", got, want * dx, 1e-11, scale=sc * dx)
    close("piecewise integral, unit step", got2, want, 1e-11, scale=sc)
    close("integral, defaults", got3, want, 1e-11, scale=sc)
