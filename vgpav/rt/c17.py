import numpy as np
from .common import *


def gen(rng, tier):
    for d in (0, 2, 3, 5):
        for noise in ("scalar", "vector", "matrix"):
            for mask in ("none", "list", "array", "one"):
                yield dict(d=d, noise=noise, mask=mask, seed=int(rng.integers(1 << 30)))
    for _ in range(40 if tier == "quick" else 2000):
        yield dict(d=int(rng.integers(0, 7)), noise=["scalar", "vector", "matrix"][rng.integers(3)],
                   mask=["none", "list", "array", "one", "bool"][rng.integers(5)],
                   seed=int(rng.integers(1 << 30)))


def check(c):
    from src.dynamics.stochastic_process import StochasticProcess as SP
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    T = int(rng.integers(1, 9))
    dt = [.1, .05, .02, .25][rng.integers(4)]
    n = int(round(T / dt)) + 1
    t0 = float(rng.integers(-2, 3))
    p = SP(7, d == 0)
    raises("observations without a path", lambda: p.collect_obs(1, 1.0))
    p.time_window = t0 + dt * np.arange(n)
    raises("observations without a path", lambda: p.collect_obs(1, 1.0))
    path = rng.normal(size=(n,) if d == 0 else (n, d))
    p.sample_path = path
    top = int(1.0 / np.diff(p.time_window)[0])
    for bad in (top + 1, 10 * top):
        raises("density above the sampling rate", lambda: p.collect_obs(bad, 1.0))
    dens = [1, top, int(rng.integers(1, top + 1))][rng.integers(3)]
    mask = None
    if d > 0 and c["mask"] != "none":
        k = 1 if c["mask"] == "one" else int(rng.integers(1, d + 1))
        mask = np.sort(rng.choice(d, k, replace=False))
        if c["mask"] == "bool":
            mask = np.isin(np.arange(d), mask)
        elif c["mask"] != "array":
            mask = mask.tolist()
    o = d if mask is None else len(np.arange(d)[np.asarray(mask)]) if d else 0
    keep = frozen(path, p.time_window)
    R = rng.uniform(.1, 2, max(o, 1))
    if d == 0:
        R[:] = R[0]
        arg = float(R[0])
    else:
        if c["noise"] == "scalar":
            R[:] = R[0]
        arg = {"scalar": float(R[0]), "vector": R.copy(), "matrix": np.diag(R)}[c["noise"]]
        if c["noise"] == "matrix":
            arg = arg + 0.01 * sym(rng, o, o) * (1 - np.eye(o))
    want_k = int(np.floor(np.abs(p.time_window[0] - p.time_window[-1]) * dens))
    draws = []
    for rep_ in range(3):
        with quiet():
            t, y, noise = p.collect_obs(dens, arg, mask)
        t = np.asarray(t)
        ok("number of observations", len(t) == want_k, (len(t), want_k))
        ok("times strictly increasing", np.all(np.diff(t) > 0))
        ok("times inside the window", len(t) == 0 or (t[0] >= 0 and t[-1] <= n - 1), t)
        base = path[t] if mask is None else path[t][:, np.asarray(mask)]
        ok("shape of the observations", np.shape(y) == base.shape, (np.shape(y), base.shape))
        same("stored path", p.sample_path, keep[0])
        same("stored window", p.time_window, keep[1])
        if d == 0:
            close("reported noise", np.asarray(noise).reshape(()), R[0], 1e-12)
        else:
            close("reported noise", noise, np.diag(R), 1e-12)
        e = ((y - base) / np.sqrt(R if d else R[0])).ravel()
        ok("noise is added", len(e) == 0 or np.all(e != 0))
        ok("noise size", len(e) == 0 or np.abs(e).max() < 6.5, np.abs(e).max() if len(e) else 0)
        draws.append(e)
    unchanged("collect_obs", keep, path, p.time_window)
    if want_k:
        ok("fresh noise every time", not np.allclose(draws[0], draws[1]))
    # the noise is standard after scaling; and scales exactly with its root
    q1, q2 = SP(11, d == 0), SP(11, d == 0)
    for q in (q1, q2):
        q.time_window, q.sample_path = p.time_window, path
    f = 3.7
    with quiet():
        t1, y1, _ = q1.collect_obs(dens, arg, mask)
        t2, y2, _ = q2.collect_obs(dens, np.asarray(arg) * f, mask)
    base = path[t1] if mask is None else path[t1][:, np.asarray(mask)]
    close("noise scales with the root of the variance", y2 - base, np.sqrt(f) * (y1 - base), 1e-9)
    if rng.random() < .15:
        big = SP(int(rng.integers(100)), d == 0)
        N = 40001
        big.time_window = .1 * np.arange(N)
        big.sample_path = np.zeros((N,) if d == 0 else (N, d))
        with quiet():
            _, y, _ = big.collect_obs(int(1 / np.diff(big.time_window)[0]), arg, mask)
        e = y / np.sqrt(R if d else R[0])
        e = e.reshape(len(e), -1)
        C = e.T @ e / len(e)
        close("noise covariance", C, np.eye(e.shape[1]), 0, atol=6 * np.sqrt(2 / len(e)))
        close("noise mean", e.mean(axis=0), 0 * R[:e.shape[1]], 0, atol=6 / np.sqrt(len(e)))
