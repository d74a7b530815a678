import numpy as np
from .common import *


def gen(rng, tier):
    for n in (1, 2, 5, 50):
        for kind in ("normal", "zero-mean", "zero-var", "large", "scalar"):
            yield dict(n=n, kind=kind, seed=int(rng.integers(1 << 30)))
    for _ in range(20 if tier == "quick" else 2000):
        yield dict(n=int(rng.integers(1, 30)), kind="normal", seed=int(rng.integers(1 << 30)))
    yield dict(n=0, kind="reject", seed=1)


def moments(m, v, top):
    e = [np.ones_like(m), m]
    for n in range(2, top + 1):
        e.append(m * e[n - 1] + (n - 1) * v * e[n - 2])
    return e


def check(c):
    from src.var_bayes.gaussian_moments import GaussianMoments as G
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "reject":
        g = G(np.array([1., 2.]), np.array([.5, 3.]))
        for bad in (-1, 9, 10, 100, 2.5, "2", None, -8):
            raises("moment of order %r" % (bad,), lambda: g(bad))
            raises("mean derivative of order %r" % (bad,), lambda: g.dm(bad))
            raises("variance derivative of order %r" % (bad,), lambda: g.ds(bad))
        raises("mean derivative of order 0", lambda: g.dm(0))
        raises("variance derivative of order 0", lambda: g.ds(0))
        for a, b in (((2,), (3,)), ((2,), (1,)), ((3,), (3, 1)), ((1,), (4,)), ((4,), ())):
            raises("shapes %s and %s" % (a, b), lambda: G(np.ones(a), np.ones(b)))
        return
    n = c["n"]
    m, v = rng.normal(size=n) * 1.5, rng.uniform(.05, 2, n)
    if c["kind"] == "zero-mean":
        m = np.zeros(n)
    if c["kind"] == "zero-var":
        v = np.zeros(n)
    if c["kind"] == "large":
        m, v = 30 * m, 50 * v
    a = (m, v)
    if c["kind"] == "scalar":
        a = (float(m[0]), float(v[0]))
        m, v = m[:1], v[:1]
    keep = frozen(*a)
    g = G(*a)
    e = moments(m, v, 8)
    order = list(range(9))
    rng.shuffle(order)
    for k in order:
        close("E[x^%d]" % k, g(k), e[k], 1e-11)
        if k:
            close("dE[x^%d]/dm" % k, g.dm(k), k * e[k - 1], 1e-11)
            w = k * (k - 1) / 2 * e[k - 2] if k > 1 else np.zeros_like(m)
            close("dE[x^%d]/dv" % k, g.ds(k), w, 1e-11)
    close("default moment", g(), e[0])
    unchanged("GaussianMoments", keep, *a)
