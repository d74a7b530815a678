"""Builders shared by the run-time contracts of VarGP (C11, C12, C22, C24)."""
import numpy as np
from .common import *


class Stub:
    """Recording components: pure functions of their arguments."""

    def __init__(self, rng, n, d, dt):
        self.n, self.d = n, d
        self.single_dim = d == 1
        self.time_step = dt
        self.time_window = dt * np.arange(n)
        self.sample_path = np.zeros(n) if d == 1 else np.zeros((n, d))
        self.sigma = float(rng.uniform(.5, 2)) if d == 1 else spd(rng, d)
        self.inverse_sigma = 1 / self.sigma if d == 1 else np.linalg.inv(self.sigma)
        self.c = rng.normal(size=40)

    def mix(self, k, shape, *args):
        """A deterministic array of this shape that depends on every argument."""
        s = self.c[k]
        for i, a in enumerate(args):
            a = np.asarray(a, dtype=float).ravel()
            w = np.cos(1 + np.arange(a.size) * (i + 2) + k)
            s = s + (i + 1) * float(w @ a) * .1
        j = np.arange(int(np.prod(shape)) if shape else 1)
        v = np.sin(s + .37 * j * (1 + k))
        return v.reshape(shape) if shape else float(v[0])

    def shp(self):
        n, d = self.n, self.d
        return ((n,), (n,)) if d == 1 else ((n, d), (n, d, d))

    def fwd(self, at, bt, m0, s0, sigma):
        v, M = self.shp()
        a = (at, bt, m0, s0, sigma)
        S = self.mix(2, M, *a)
        return self.mix(1, v, *a), (S if self.d == 1 else S + np.swapaxes(S, 1, 2))

    def energy(self, at, bt, m, s, obs_t):
        v, M = self.shp()
        a = (at, bt, m, s, obs_t)
        return (self.mix(3, (), *a), (self.mix(4, v, *a), self.mix(5, M, *a)),
                (self.mix(6, v, *a), self.mix(7, M, *a), self.mix(8, (3,), *a), self.mix(9, (3,), *a)))

    def like(self, m, s):
        return self.mix(10, (), m, s)

    def like_gradients(self, m, s):
        v, M = self.shp()
        return self.mix(11, v, m, s), self.mix(12, M, m, s), self.mix(13, v, m, s)

    def bwd(self, at, gm, gs, om, os_):
        v, M = self.shp()
        a = (at, gm, gs, om, os_)
        P = self.mix(15, M, *a)
        return self.mix(14, v, *a), (P if self.d == 1 else P + np.swapaxes(P, 1, 2))

    def kl(self, m0, s0):
        return self.mix(16, (), m0, s0)


class Like:
    def __init__(self, s):
        self.s = s

    def __call__(self, m, s):
        return self.s.like(m, s)

    def gradients(self, m, s):
        return self.s.like_gradients(m, s)


class Kl:
    def __init__(self, s):
        self.s = s

    def __call__(self, m0, s0):
        return self.s.kl(m0, s0)


def stub_problem(rng, n, d):
    from src.var_bayes.variational import VarGP
    dt = float(rng.uniform(.01, .3))
    st = Stub(rng, n, d, dt)
    k = int(rng.integers(1, n + 1))
    obs_t = obs_sets(rng, n, k)
    obs_y = rng.normal(size=(k,) if d == 1 else (k, d))
    m0 = float(rng.normal()) if d == 1 else rng.normal(size=d)
    s0 = .3 if d == 1 else spd(rng, d)
    v = VarGP(st, m0, s0, st.fwd, st.bwd, Like(st), Kl(st), obs_y, obs_t)
    parts = dict(fwd=st.fwd, bwd=st.bwd, like=st.like, lg=st.like_gradients, energy=st.energy,
                 kl=st.kl)
    return v, st, parts, (m0, s0, obs_t, obs_y, dt)


def real_problem(rng, model, n):
    from src.var_bayes.variational import VarGP
    from src.var_bayes.fwd_ode import FwdOde
    from src.var_bayes.bwd_ode import BwdOde
    from src.var_bayes.gaussian_like import GaussianLikelihood
    from src.var_bayes.prior_kl0 import PriorKL0
    dt = float(rng.uniform(.005, .02))
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[model]
    sig = float(rng.uniform(.5, 2)) if d == 1 else rng.uniform(3, 9, d)
    th = {"DW": 1., "OU": 1.5, "L63": np.array([10, 28, 2.667]), "L96": 8.}[model]
    p = build(model, sig, th, 5, **({"dim_d": 10} if model == "L96" else {}))
    window(p, n, dt)
    p.sample_path = rng.normal(size=(n,) if d == 1 else (n, d))
    k = int(rng.integers(1, 4))
    obs_t = obs_sets(rng, n, k)
    obs_y = rng.normal(size=(len(obs_t),) if d == 1 else (len(obs_t), d))
    meth = ["euler", "heun", "rk2", "rk4"][rng.integers(4)]
    single = d == 1
    f, b = FwdOde(dt, meth, single), BwdOde(dt, meth, single)
    R = .3 if single else spd(rng, d)
    like = GaussianLikelihood(obs_y, obs_t, R, None, single)
    m0 = float(rng.normal()) if d == 1 else rng.normal(size=d)
    s0 = .3 if d == 1 else .3 * np.eye(d)
    kl = PriorKL0(0. if single else np.zeros(d), .5 if single else .5 * np.eye(d), single)
    v = VarGP(p, m0, s0, f, b, like, kl, obs_y, obs_t)
    parts = dict(fwd=f, bwd=b, like=like, lg=like.gradients, energy=p.energy, kl=kl)
    return v, p, parts, (m0, s0, obs_t, obs_y, p.time_step)


def vector(rng, n, d):
    a = np.zeros((n, d, d)) + 3 * np.eye(d) + .5 * rng.normal(size=(n, d, d))
    return np.r_[a.ravel(), rng.normal(size=n * d)]


def split(x, n, d):
    k = n * d * d
    return (x[:k], x[k:]) if d == 1 else (x[:k].reshape(n, d, d), x[k:].reshape(n, d))


def reference(x, v, p, parts, info, n, d):
    m0, s0, obs_t, obs_y, dt = info
    a, b = split(np.array(x), n, d)
    with quiet():
        m, s = parts["fwd"](a, b, m0, s0, p.sigma)
        E, (Ef, Edf), g = parts["energy"](a, b, m, s, obs_t)
        om, os_ = parts["lg"](m, s)[:2]
        lam, psi = parts["bwd"](a, g[0], g[1], om, os_)
        F = float(np.asarray(parts["kl"](m0, s0) + E + parts["like"](m, s)).reshape(()))
    return F, dict(mt=m, st=s, Efx=Ef, Edf=Edf, lamt=lam, psit=psi, m0=m0, s0=s0)


def problem(c, rng):
    if c["kind"] == "stub":
        return stub_problem(rng, c["n"], c["d"]) + (c["d"],)
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[c["kind"]]
    return real_problem(rng, c["kind"], c["n"]) + (d,)


def gen(rng, tier):
    for d in (1, 2, 3, 4):
        for n in (2, 3, 7):
            yield dict(kind="stub", d=d, n=n, seed=int(rng.integers(1 << 30)))
    for mod in ("DW", "OU", "L63", "L96"):
        for n in (4, 9):
            yield dict(kind=mod, d=0, n=n, seed=int(rng.integers(1 << 30)))
    for _ in range(15 if tier == "quick" else 1000):
        yield dict(kind="stub", d=int(rng.integers(1, 6)), n=int(rng.integers(2, 30)),
                   seed=int(rng.integers(1 << 30)))
