import itertools
import numpy as np
from .common import *
from .energy1d import gen as _gen, pick_obs, trapz

GX, GW = np.polynomial.hermite_e.hermegauss(6)
GW = GW / GW.sum()
XI = np.array(list(itertools.product(GX, repeat=3)))
WI = np.array([np.prod(w) for w in itertools.product(GW, repeat=3)])


def gen(rng, tier):
    for i, c in enumerate(_gen(rng, tier)):
        c["n"] = min(c["n"], 12)
        yield c


def drift(x, u):
    s, r, b = u
    return np.stack([s * (x[:, 1] - x[:, 0]), (r - x[:, 2]) * x[:, 0] - x[:, 1],
                     x[:, 0] * x[:, 1] - b * x[:, 2]], axis=1)


def jac(x, u):
    s, r, b = u
    J = np.zeros((len(x), 3, 3))
    J[:, 0, 0], J[:, 0, 1] = -s, s
    J[:, 1, 0], J[:, 1, 1], J[:, 1, 2] = r - x[:, 2], -1, -x[:, 0]
    J[:, 2, 0], J[:, 2, 1], J[:, 2, 2] = x[:, 1], x[:, 0], -b
    return J


H1 = np.zeros((3, 3)); H1[0, 2] = H1[2, 0] = -1   # noqa: E702
H2 = np.zeros((3, 3)); H2[0, 1] = H2[1, 0] = 1    # noqa: E702


def check(c):
    rng = np.random.default_rng(c["seed"])
    n, dt = c["n"], float(np.exp(rng.uniform(-5, 0)))
    sig = rng.uniform(.3, 4, 3)
    u = np.array([10, 28, 2.667]) * rng.uniform(.3, 1.2, 3)
    p = build("L63", sig if rng.random() < .5 else np.diag(sig), u, 3)
    window(p, n, dt)
    p.sample_path = np.zeros((n, 3))
    for rnd in range(2):
        A, b = 2 * rng.normal(size=(n, 3, 3)), 3 * rng.normal(size=(n, 3))
        m = 2 * rng.normal(size=(n, 3))
        S = np.array([spd(rng, 3, rng.uniform(.1, 1.5), .2) for _ in range(n)])
        obs = pick_obs(rng, n, c["kobs"])
        keep = frozen(A, b, m, S) + ([] if obs is None else frozen(obs))
        with quiet():
            E, (Ef, Edf), gr = p.energy(A, b, m, S, obs)
        unchanged("energy", keep, A, b, m, S, *([] if obs is None else [obs]))
        w = 1 / sig
        F, GM, GS, TH, V, F_, J_ = [], [], [], [], [], [], []
        for k in range(n):
            x = m[k] + XI @ np.linalg.cholesky(S[k]).T
            f, J0 = drift(x, u), jac(x, u)
            r = f + x @ A[k].T - b[k]
            J = J0 + A[k]
            F_.append(WI @ f)
            J_.append(np.einsum("q,qij->ij", WI, J0))
            V.append(WI @ (r * r))
            F.append(.5 * V[-1] @ w)
            GM.append(np.einsum("q,qi,i,qij->j", WI, r, w, J))
            GS.append(.5 * (np.einsum("q,qia,i,qib->ab", WI, J, w, J)
                            + (WI @ r[:, 1]) * w[1] * H1 + (WI @ r[:, 2]) * w[2] * H2))
            dth = np.stack([x[:, 1] - x[:, 0], x[:, 0], -x[:, 2]], axis=1)
            TH.append(WI @ (r * dth) * w)
        F, V = np.array(F), np.array(V)
        sc, T = float(F.max()) + 1, (n - 1) * dt
        close("energy", E, trapz(F, dt), 1e-9, scale=sc * T)
        close("average drift", Ef, np.array(F_), 1e-9)
        close("average Jacobian", Edf, np.array(J_), 1e-9)
        close("gradient w.r.t. the mean", gr[0], np.array(GM), 1e-9, scale=sc)
        close("gradient w.r.t. the covariance", gr[1], np.array(GS), 1e-9, scale=sc)
        close("gradient w.r.t. theta", gr[2], trapz(np.array(TH), dt), 1e-9, scale=sc * T)
        want = -.5 * np.diag(trapz(V, dt) * w * w)
        got = np.asarray(gr[3])
        if got.shape == (3, 3):
            close("gradient w.r.t. the noise", np.diag(got), np.diag(want), 1e-9,
                  scale=np.abs(want).max() + 1)
        else:
            close("gradient w.r.t. the noise", got, np.diag(want), 1e-9)
        if c["change"] & 1:
            u = np.array([10, 28, 2.667]) * rng.uniform(.3, 1.2, 3)
            p.theta = u
        if c["change"] & 2:
            sig = rng.uniform(.3, 4, 3)
            p.sigma = np.diag(sig)
        if rng.random() < .5:
            n, dt = n + 1, dt * 1.7
            window(p, n, dt)
