import numpy as np
from .common import *


def gen(rng, tier):
    for d in list(range(1, 13)) + [25]:
        for kind in ("affine", "quadratic", "samples"):
            yield dict(d=d, kind=kind, seed=int(rng.integers(1 << 30)))
    for _ in range(30 if tier == "quick" else 2000):
        yield dict(d=int(rng.integers(1, 20)), kind=["affine", "quadratic", "samples"][rng.integers(3)],
                   seed=int(rng.integers(1 << 30)))


def check(c):
    from src.numerics.utilities import ut_approx
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    m = 3 * rng.normal(size=d)
    S = spd(rng, d, float(np.exp(rng.uniform(-3, 3))), .1)
    odd = rng.random()
    m, = whole(odd < .15, m)
    S, = whole_spd(.05 < odd < .25, S)
    keep = frozen(m, S)
    if c["kind"] == "affine":
        o = int(rng.integers(1, d + 3))
        M, cc = rng.normal(size=(o, d)), rng.normal(size=o)
        tag = object()

        def fun(x, t1, M_, t2):
            ok("extra arguments are passed on", t1 is tag and M_ is M and t2 == "z")
            return x @ M_.T + cc
        y, C = ut_approx(fun, m, S, tag, M, "z")
        close("mean of an affine map", y, M @ m + cc, 1e-9, scale=np.abs(M).max() * np.abs(m).max() * d + 10)
        close("covariance of an affine map", C, M @ S @ M.T, 1e-8)
        if d > 1:
            y, C = ut_approx(lambda x: x, m.tolist(), S.tolist())
            close("mean of the identity", y, m, 1e-9)
            close("covariance of the identity", C, S, 1e-8)
    elif c["kind"] == "quadratic":
        o = int(rng.integers(1, 4))
        Q = rng.normal(size=(o, d, d))
        M, cc = rng.normal(size=(o, d)), rng.normal(size=o)
        fun = lambda x: np.einsum("qi,oij,qj->qo", x, Q, x) + x @ M.T + cc  # noqa: E731
        y, _ = ut_approx(fun, m, S)
        want = np.einsum("i,oij,j->o", m, Q, m) + np.einsum("oij,ij->o", Q, S) + M @ m + cc
        sc = float(np.abs(Q).max() * d * (m @ m + np.trace(S)) + 1)
        close("mean of a quadratic map", y, want, 1e-10, scale=sc)
    else:
        seen = []

        def fun(x):
            seen.append(np.array(x, copy=True))
            return np.eye(len(x))
        w, C = ut_approx(fun, m, S)
        ok("2D+1 samples", sum(len(x) for x in seen) == 2 * d + 1 and seen[0].shape == (2 * d + 1, d))
        X = seen[0]
        close("weights sum to one", w.sum(), 1.0, 1e-12)
        close("weighted sample mean", w @ X, m, 1e-10, scale=np.abs(X).max())
        close("weighted sample covariance", (X - m).T @ (w[:, None] * (X - m)), S, 1e-9)
    unchanged("ut_approx", keep, m, S)
