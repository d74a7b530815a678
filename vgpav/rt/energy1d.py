"""Shared run-time contract of the two scalar SDE energies (C04, C05)."""
import numpy as np
from .common import *

GX, GW = np.polynomial.hermite_e.hermegauss(12)
GW = GW / GW.sum()


def gen(rng, tier):
    sizes = (2, 3, 5, 12, 60)
    i = 0
    for n in sizes:
        for kobs in (0, 1, 2, "ends", "none"):
            i += 1
            yield dict(n=n, kobs=kobs, seed=int(rng.integers(1 << 30)), change=i % 4)
    for _ in range(30 if tier == "quick" else 2000):
        yield dict(n=int(rng.integers(2, 80)), kobs=int(rng.integers(0, 6)),
                   seed=int(rng.integers(1 << 30)), change=int(rng.integers(4)))


def pick_obs(rng, n, kobs):
    if kobs == "none":
        return None
    if kobs == "ends":
        return sorted({0, n - 1, int(rng.integers(n))})
    o = obs_sets(rng, n, kobs)
    return [o, o.tolist(), tuple(o.tolist())][rng.integers(3)]


def trapz(f, dt):
    f = np.asarray(f)
    return dt * (f[:-1] + f[1:]).sum(axis=0) / 2


def run(c, model, drift, ddrift, d2drift, drift_th):
    rng = np.random.default_rng(c["seed"])
    n, dt = c["n"], float(np.exp(rng.uniform(-5, 0)))
    sigma, theta = rng.uniform(.2, 3), rng.uniform(.3, 2.5)
    if rng.random() < .25:
        sigma, theta = np.exp(rng.uniform(-7, 5)), np.exp(rng.uniform(-8, 3))
    if model == "DW" and rng.random() < .3:
        theta = -theta
    p = build(model, sigma, theta, 3)
    window(p, n, dt)
    p.sample_path = np.zeros(n)
    for rnd in range(2):
        a, b = 3 * rng.normal(size=n), 2 * rng.normal(size=n)
        m, s = 1.5 * rng.normal(size=n), rng.uniform(.02, 1.5, n)
        obs = pick_obs(rng, n, c["kobs"])
        keep = frozen(a, b, m, s) + ([] if obs is None else frozen(obs))
        with quiet():
            E, (Ef, Edf), gr = p.energy(a, b, m, s, obs)
        unchanged("energy", keep, a, b, m, s, *([] if obs is None else [obs]))
        x = m[:, None] + np.sqrt(s)[:, None] * GX
        r = drift(x, theta) - (-a[:, None] * x + b[:, None])
        J = ddrift(x, theta) + a[:, None]
        ev = lambda y: y @ GW  # noqa: E731
        F = ev(r * r) / (2 * sigma)
        sc = float(np.max(np.abs(F))) + 1
        T = (n - 1) * dt
        close("energy", E, trapz(F, dt), 1e-9, scale=sc * T)
        close("average drift", Ef, ev(drift(x, theta) + 0 * x), 1e-9)
        close("average drift slope", Edf, ev(ddrift(x, theta) + 0 * x), 1e-9)
        close("gradient w.r.t. the mean", gr[0], ev(r * J) / sigma, 1e-9, scale=sc)
        close("gradient w.r.t. the variance", gr[1],
              ev(J * J + r * d2drift(x, theta)) / (2 * sigma), 1e-9, scale=sc)
        close("gradient w.r.t. theta", gr[2], trapz(ev(r * drift_th(x)) / sigma, dt), 1e-9,
              scale=sc * T)
        close("gradient w.r.t. sigma", gr[3], -trapz(F, dt) / sigma, 1e-9,
              scale=sc * T / min(sigma, 1))
        # change the parameters and evaluate again
        if c["change"] & 1:
            theta = rng.uniform(.3, 2.5)
            p.theta = theta
        if c["change"] & 2:
            sigma = rng.uniform(.2, 3)
            p.sigma = sigma
        if rng.random() < .5:
            n, dt = n + 1, dt * 1.7
            window(p, n, dt)
