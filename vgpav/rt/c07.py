import numpy as np
from .common import *
from .energy1d import pick_obs, trapz


def gen(rng, tier):
    i = 0
    for d in (10, 11, 13):
        for kobs in (0, 2, "ends", "none"):
            i += 1
            yield dict(d=d, n=[2, 3, 5][i % 3], kobs=kobs, change=i % 4,
                       seed=int(rng.integers(1 << 30)))
    for _ in range(6 if tier == "quick" else 300):
        yield dict(d=int(rng.integers(10, 24)), n=int(rng.integers(2, 6)),
                   kobs=int(rng.integers(0, 3)), change=int(rng.integers(4)),
                   seed=int(rng.integers(1 << 30)))
    yield dict(d=40, n=2, kobs=1, change=3, seed=int(rng.integers(1 << 30)))


def f96(x, th):
    D = len(x)
    return np.array([(x[(i + 1) % D] - x[(i - 2) % D]) * x[(i - 1) % D] - x[i] + th
                     for i in range(D)])


def sigma_points(m, S):
    D = len(m)
    k = 1.05 * D
    L = np.linalg.cholesky((D + k) * S)
    X = np.vstack([m[None], m + L.T, m - L.T])
    w = np.r_[k / (D + k), np.full(2 * D, .5 / (D + k))]
    return X, w


def check(c):
    rng = np.random.default_rng(c["seed"])
    D, n, dt = c["d"], c["n"], float(np.exp(rng.uniform(-5, 0)))
    sig, th = rng.uniform(.5, 4, D), float(rng.uniform(2, 9))
    p = build("L96", [sig, np.diag(sig)][rng.integers(2)], th, 3, dim_d=D)
    window(p, n, dt)
    p.sample_path = np.zeros((n, D))
    for rnd in range(2):
        A, b = rng.normal(size=(n, D, D)), 3 * rng.normal(size=(n, D))
        m = 3 * rng.normal(size=(n, D))
        S = np.array([spd(rng, D, rng.uniform(.2, 1.2)) for _ in range(n)])
        obs = pick_obs(rng, n, c["kobs"])
        keep = frozen(A, b, m, S)
        with quiet():
            E, (Ef, Edf), gr = p.energy(A, b, m, S, obs)
        unchanged("energy", keep, A, b, m, S)
        w = 1 / sig
        F, GM, GS, F_, J_, V = [], [], [], [], [], []
        for t in range(n):
            mt, St = m[t], S[t]
            i = np.arange(D)
            F_.append(f96(mt, th) + St[(i + 1) % D, (i - 1) % D] - St[(i - 2) % D, (i - 1) % D])
            J = np.zeros((D, D))
            for k in range(D):
                J[k, (k + 1) % D] += mt[(k - 1) % D]
                J[k, (k - 2) % D] -= mt[(k - 1) % D]
                J[k, (k - 1) % D] += mt[(k + 1) % D] - mt[(k - 2) % D]
                J[k, k] -= 1
            J_.append(J)
            X, wt = sigma_points(mt, St)
            r2 = np.array([(f96(x, th) + A[t] @ x - b[t]) ** 2 for x in X])
            V.append(wt @ r2)
            Fx = .5 * r2 @ w
            F.append(wt @ Fx)
            iS = np.linalg.inv(St)
            Z = X - mt
            GM.append(iS @ ((wt * Fx) @ X) - F[-1] * (iS @ mt))
            GS.append(.5 * (iS @ ((Z.T * (wt * Fx)) @ Z) @ iS - F[-1] * iS))
        F, V, F_ = np.array(F), np.array(V), np.array(F_)
        sc, T = float(F.max()) + 1, (n - 1) * dt
        close("energy", E, trapz(F, dt), 1e-9, scale=sc * T)
        close("average drift", Ef, F_, 1e-9)
        close("average Jacobian", Edf, np.array(J_), 1e-9)
        close("gradient w.r.t. the mean", gr[0], np.array(GM), 1e-7, scale=sc)
        close("gradient w.r.t. the covariance", gr[1], np.array(GS), 1e-7, scale=sc)
        # E[f - g] componentwise, with E[f] as reported
        res = F_ + np.einsum("tij,tj->ti", A, m) - b
        close("gradient w.r.t. the forcing", gr[2], w * trapz(res, dt), 1e-9,
              scale=(np.abs(res).max() + 1) * T * w.max())
        want = -.5 * trapz(V, dt) * w * w
        got = np.asarray(gr[3])
        if got.ndim == 2:
            got = np.diag(got)
        close("gradient w.r.t. the noise", got, want, 1e-9, scale=np.abs(want).max() + 1)
        if c["change"] & 1:
            th = float(rng.uniform(2, 9))
            p.theta = th
        if c["change"] & 2:
            sig = rng.uniform(.5, 4, D)
            p.sigma = np.diag(sig)
