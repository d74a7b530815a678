import numpy as np
from .common import *


def gen(rng, tier):
    for d in (1, 2, 3, 6, 15):
        for kind in ("quad", "cubic", "sin"):
            yield dict(d=d, kind=kind, seed=int(rng.integers(1 << 30)))
    for _ in range(40 if tier == "quick" else 3000):
        yield dict(d=int(rng.integers(1, 12)), kind=["quad", "cubic", "sin"][rng.integers(3)],
                   seed=int(rng.integers(1 << 30)))


def check(c):
    from src.numerics.utilities import finite_diff
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    Q, g = rng.normal(size=(d, d)), rng.normal(size=d)
    x = 2 * rng.normal(size=d)
    if c["kind"] == "quad" and rng.random() < .5:       # large and small coordinates
        x *= np.exp(rng.uniform(-9, 9, d))
    if rng.random() < .3:
        x[int(rng.integers(d))] = 0.
    tag = object()
    seen = []

    def f(z, a, b):
        ok("extra arguments are passed on", a is tag and b == 5)
        z = np.asarray(z)
        seen.append(np.array(z, dtype=float).ravel())
        if c["kind"] == "quad":
            return float(z @ Q @ z + g @ z)
        if c["kind"] == "cubic":
            return float(g @ z ** 3 + (Q @ z) @ z)
        return float(np.sin(g @ z) + np.sum(np.abs(z)))
    forms = [x]
    if d == 1:
        forms += [float(x[0]), [float(x[0])]]
    for xx in forms + ([x.tolist()] if d > 1 else []):
        del seen[:]
        keep = frozen(xx)
        got = finite_diff(f, xx, tag, 5)
        unchanged("finite_diff", keep, xx)
        pts = list(seen)
        h = 1e-6
        for p in pts:
            k = np.flatnonzero(p != x)
            ok("only one coordinate is perturbed", len(k) <= 1, p - x)
            if len(k):
                close("step", abs(p - x)[k[0]], h, 1e-3 + 4e-10 * abs(x[k[0]]))
        I = np.eye(d) * h
        want = np.array([(f(x + e, tag, 5) - f(x - e, tag, 5)) / (2 * h) for e in I])
        if d == 1:
            ok("scalar result", np.ndim(got) == 0)
            want = want[0]
        sc = max(abs(f(x, tag, 5)), 1.)
        close("central difference", got, want, 0, atol=1e-8 * sc + 1e-7)
