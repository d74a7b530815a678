import numpy as np
from .common import *


def gen(rng, tier):
    for d in (0, 1, 2, 3, 4, 7):
        for kind in ("random", "same", "diagonal"):
            yield dict(d=d, kind=kind, seed=int(rng.integers(1 << 30)))
    for _ in range(40 if tier == "quick" else 4000):
        yield dict(d=int(rng.integers(0, 9)), kind="random", seed=int(rng.integers(1 << 30)))


def check(c):
    from src.var_bayes.prior_kl0 import PriorKL0
    rng = np.random.default_rng(c["seed"])
    single, D = c["d"] == 0, max(c["d"], 1)
    mu, tau = rng.normal(size=D), spd(rng, D, float(np.exp(rng.uniform(-1, 1))), .2)
    if c["kind"] == "diagonal":
        tau = np.diag(np.diag(tau))
    odd = rng.random()
    mu, = whole(odd < .15, mu)
    tau, = whole_spd(.05 < odd < .25, tau)
    kl = PriorKL0(mu[0].item(), tau[0, 0].item(), True) if single else PriorKL0(mu, tau, False)
    for rnd in range(2):
        m, s = rng.normal(size=D), spd(rng, D, float(np.exp(rng.uniform(-1, 1))), .2)
        if c["kind"] == "diagonal":
            s = np.diag(np.diag(s))
        if rnd and rng.random() < .3:           # very small or very large
            s = s * float(np.exp(rng.choice([-30., -20., 20.])))
        if c["kind"] == "same":
            m, s = mu.copy(), tau.copy()
        lam, psi = rng.normal(size=D), sym(rng, D, D)
        odd = rng.random()
        if rnd and np.abs(s).max() < 1e3 and np.abs(s).max() > 1e-3 and c["kind"] != "same":
            m, = whole(odd < .15, m)
            s, = whole_spd(.05 < odd < .25, s)
        a = (m, s, lam, psi)
        if single:
            a = tuple(np.ravel(v)[0].item() for v in a)
        keep = frozen(*a, mu, tau)
        E = kl(*a[:2])
        if rnd:                 # another value in between
            kl(a[0] + 1., 2. * a[1])
        G = kl.gradients(*a)
        unchanged("KL", keep, *a, mu, tau)
        it, z = np.linalg.inv(tau), m - mu
        want = .5 * (np.linalg.slogdet(tau)[1] - np.linalg.slogdet(s)[1] - D
                     + np.sum(it * s) + z @ it @ z)
        close("KL divergence", np.asarray(E).reshape(()), want, 1e-9, atol=1e-9)
        close("gradient w.r.t. m0", np.reshape(G[0], D), lam + it @ z, 1e-9)
        close("gradient w.r.t. s0", np.reshape(G[1], (D, D)),
              psi + .5 * (it - np.linalg.inv(s)), 1e-9)
