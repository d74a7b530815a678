import numpy as np
from .common import *


def gen(rng, tier):
    for mod in MODELS:
        for kind in ("tiny", "scale", "dt", "law"):
            for full in (0, 1):
                yield dict(model=mod, kind=kind, full=full, seed=int(rng.integers(1 << 30)))
    for _ in range(20 if tier == "quick" else 600):
        yield dict(model=MODELS[rng.integers(4)], kind=["tiny", "scale", "dt"][rng.integers(3)],
                   full=int(rng.integers(2)), seed=int(rng.integers(1 << 30)))


def drift(mod, x, th, mu=0.):
    if mod == "DW":
        return 4 * x * (th - x * x)
    if mod == "OU":
        return th * (mu - x)
    if mod == "L63":
        s, r, b = th
        return np.stack([s * (x[:, 1] - x[:, 0]), (r - x[:, 2]) * x[:, 0] - x[:, 1],
                         x[:, 0] * x[:, 1] - b * x[:, 2]], axis=1)
    return (np.roll(x, -1, 1) - np.roll(x, 2, 1)) * np.roll(x, 1, 1) - x + th


def make(mod, sig, th, seed, d, t0, tf, dt, mu=None):
    p = build(mod, sig, th, seed, **({"dim_d": d} if mod == "L96" else {}))
    raises("path before generation", lambda: p.sample_path)
    raises("window before generation", lambda: p.time_window)
    raises("step before generation", lambda: p.time_step)
    with quiet():
        p.make_trajectory(t0, tf, dt, *([] if mu is None else [mu]))
    return p


def check(c):
    rng = np.random.default_rng(c["seed"])
    mod, kind = c["model"], c["kind"]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": int(rng.integers(10, 14)) if rng.random() < .7 else int(rng.integers(39, 50))}[mod]
    th = {"DW": float(rng.uniform(.5, 1.5)), "OU": float(rng.uniform(.5, 3)),
          "L63": np.array([10, 28, 2.667]) * rng.uniform(.9, 1.1, 3),
          "L96": float(rng.uniform(2, 8.5))}[mod]
    mu = float(rng.normal()) if mod == "OU" and rng.random() < .5 else None
    sig = float(rng.uniform(.3, 1.5)) if d == 1 else (
        spd(rng, d, 1., .3) if c["full"] else np.diag(rng.uniform(.3, 2, d)))
    seed = None if kind == "tiny" and rng.random() < .3 else int(rng.integers(1, 1000))
    dt = float(rng.choice([.01, .005, .02]))
    t0 = float(rng.choice([0., 1., -.5]))
    n0 = int(rng.integers(5, 60)) if kind != "law" else (4000 if d == 1 else 1500)
    tf = t0 + dt * n0
    R = np.linalg.cholesky(np.atleast_2d(sig))

    def res(p, dt_, R_):
        x = np.reshape(p.sample_path, (len(p.time_window), -1))
        f = drift(mod, x[:-1, 0], th, mu or 0.)[:, None] if d == 1 else drift(mod, x[:-1], th)
        r = x[1:] - x[:-1] - f * dt_
        return np.linalg.solve(R_, r.T).T / np.sqrt(dt_), x
    if kind == "tiny":
        eps = 1e-20
        p = make(mod, sig * eps, th, seed, d, t0, tf, dt, mu)
        tk, x = np.asarray(p.time_window), np.asarray(p.sample_path)
        ok("path and grid have the same length", len(tk) == len(x), (len(tk), len(x)))
        ok("shape of the path", x.shape == ((len(tk),) if d == 1 else (len(tk), d)), x.shape)
        close("grid starts at t0", tk[0], t0, 0, atol=1e-12)
        close("grid is equidistant", np.diff(tk), np.full(len(tk) - 1, dt), 1e-9)
        ok("grid covers tf", tk[-1] >= tf - 1e-9 and tk[-1] < tf + 1.5 * dt, (tk[-1], tf))
        close("time step", p.time_step, dt, 1e-9)
        r, x = res(p, dt, R * 1e-10)
        close("drift step", r * 1e-10, 0 * r, 0, atol=1e-9 * np.sqrt(d) + 1e-12 / np.sqrt(dt) * np.abs(x).max())
        ok("tells whether the state is scalar", bool(p.single_dim) == (d == 1), p.single_dim)
        if mod == "OU":
            close("initial state", x[0, 0], mu or 0., 0, atol=1e-9)
        if rng.random() < .5:           # the same object, made anew on another grid
            later = Later()
            later.add("trajectory", p.sample_path, p.time_window)
            h, t1 = dt / 2, t0 + .5
            with quiet():
                p.make_trajectory(t1, t1 + h * n0, h, *([] if mu is None else [mu]))
            later.check()
            tk = np.asarray(p.time_window)
            close("new grid starts at t0", tk[0], t1, 0, atol=1e-12)
            close("new grid is equidistant", np.diff(tk), np.full(len(tk) - 1, h), 1e-9)
            close("new time step", p.time_step, h, 1e-9)
            r, x = res(p, h, R * 1e-10)
            close("drift step, again", r * 1e-10, 0 * r, 0,
                  atol=1e-9 * np.sqrt(d) + 1e-12 / np.sqrt(h) * np.abs(x).max())
    elif kind == "scale":
        p1 = make(mod, sig, th, seed, d, t0, tf, dt, mu)
        p2 = make(mod, sig * 4e-2, th, seed, d, t0, tf, dt, mu)
        r1, x1 = res(p1, dt, R)
        r2, x2 = res(p2, dt, R)
        tol = 1e-8 * max(1, np.abs(x1).max(), np.abs(x2).max()) / np.sqrt(dt)
        close("increments scale with the root of the noise", r2, .2 * r1, 0, atol=tol)
        ok("every increment is random", np.all(np.abs(r1).max(axis=1) > 0))
    elif kind == "dt":
        p1 = make(mod, sig, th, seed, d, t0, tf, dt, mu)
        p2 = make(mod, sig, th, seed, d, t0, t0 + dt / 4 * n0, dt / 4, mu)
        if len(p1.time_window) == len(p2.time_window):
            r1, x1 = res(p1, dt, R)
            r2, x2 = res(p2, dt / 4, R)
            tol = 1e-8 * max(1, np.abs(x1).max(), np.abs(x2).max()) / np.sqrt(dt / 4)
            close("increments scale with the root of the step", r2, r1, 0, atol=tol)
    else:
        p = make(mod, sig, th, seed, d, t0, tf, dt, mu)
        r, x = res(p, dt, R)
        N = len(r)
        close("covariance of the increments", r.T @ r / N, np.eye(d), 0, atol=6.5 * np.sqrt(2 / N))
        close("mean of the increments", r.mean(axis=0), np.zeros(d), 0, atol=6.5 / np.sqrt(N))
        close("increments are uncorrelated in time", r[1:].T @ r[:-1] / N, np.zeros((d, d)), 0,
              atol=6.5 / np.sqrt(N))
        # law of single increments, at every position, over many seeds
        K, q = (300, 6) if d == 1 else (0, 0)
        E = []
        for s in range(K):
            E.append(res(make(mod, sig, th, s, d, 0., dt * q, dt, mu), dt, R)[0][:, 0])
        if K:
            L = min(len(e) for e in E)
            E = np.array([e[:L] for e in E])
            close("variance of each increment", (E ** 2).mean(axis=0), np.ones(L), 0,
                  atol=6.5 * np.sqrt(2 / K))
