import numpy as np
from .common import *


def gen(rng, tier):
    for d in (0, 1, 2, 3, 5):
        for h in ("none", "given", "tall"):
            for k in (1, 2, 5):
                yield dict(d=d, h=h, k=k, seed=int(rng.integers(1 << 30)))
    for _ in range(40 if tier == "quick" else 3000):
        yield dict(d=int(rng.integers(0, 7)), h=["none", "given", "tall"][rng.integers(3)],
                   k=int(rng.integers(1, 9)), seed=int(rng.integers(1 << 30)))


def check(c):
    from src.var_bayes.gaussian_like import GaussianLikelihood as GL
    rng = np.random.default_rng(c["seed"])
    d, k = c["d"], c["k"]
    single, D = d == 0, max(d, 1)
    n = k + int(rng.integers(0, 12))
    t = obs_sets(rng, n, k)
    if rng.random() < .3:
        t = rng.permutation(t)
    tt = [t, t.tolist(), tuple(t.tolist())][rng.integers(3)]
    if single:
        H = None if c["h"] == "none" else float(rng.choice([-1.5, .4, 2., 3.]))
        Hm = np.array([[1. if H is None else H]])
        R = float(rng.uniform(.1, 3))
        Rm = np.array([[R]])
    else:
        o = {"none": D, "given": int(rng.integers(1, D + 1)), "tall": D + 2}[c["h"]]
        H = None if c["h"] == "none" else rng.normal(size=(o, D))
        Hm = np.eye(D) if H is None else H
        R = Rm = spd(rng, len(Hm), .8, .2)
    y = 2 * rng.normal(size=(k, len(Hm)))
    yy = y[:, 0].copy() if single else y
    like = GL(yy, tt, R, H, single)
    later = Later()
    for rnd in range(4):
        m, S = 2 * rng.normal(size=(n, D)), np.array([spd(rng, D) for _ in range(n)])
        m, S = whole(rnd == 3, m, S)
        ms = (m[:, 0].copy(), S[:, 0, 0].copy()) if single else (m, S)
        keep = frozen(*ms, yy, t, R)
        E = like(*ms)
        if rnd % 2:             # another energy in between
            like(*(np.flip(a, 0) + 1. for a in ms))
        G = like.gradients(*ms)
        later.check()
        later.add("gradients of the observation energy", *G)
        unchanged("observation energy", keep, *ms, yy, t, R)
        iR = np.linalg.inv(Rm)
        want, gm, gs, gr = 0., np.zeros((n, D)), np.zeros((n, D, D)), np.zeros(n)
        for j, ti in enumerate(t):
            w = y[j] - Hm @ m[ti]
            P = np.outer(w, w) + Hm @ S[ti] @ Hm.T
            want += .5 * (np.sum(iR * P) + np.linalg.slogdet(2 * np.pi * Rm)[1])
            gm[ti] = -Hm.T @ iR @ w
            gs[ti] = .5 * Hm.T @ iR @ Hm
            gr[ti] = .5 * (1 / Rm[0, 0] - P[0, 0] / Rm[0, 0] ** 2)
        close("observation energy", np.asarray(E).reshape(()), want, 1e-9)
        close("gradient w.r.t. the mean", np.reshape(G[0], (n, D)), gm, 1e-9)
        close("gradient w.r.t. the covariance", np.reshape(G[1], (n, D, D)), gs, 1e-9)
        if single:
            ok("shape of the gradients", np.shape(G[0]) == (n,) and np.shape(G[1]) == (n,))
            close("gradient w.r.t. the noise", G[2], gr, 1e-9)
        if rnd == 1:
            if single:
                R = float(rng.uniform(.1, 3))
                Rm = np.array([[R]])
            else:
                R = Rm = spd(rng, len(Hm), 1.3, .2)
            like.noise = R
