import numpy as np
from scipy.interpolate import CubicSpline
from .common import *


def gen(rng, tier):
    for d in (1, 2, 3, 5):
        for kind in ("inner", "first", "last", "both", "one", "dense"):
            yield dict(d=d, kind=kind, n=int(rng.integers(4, 40)), seed=int(rng.integers(1 << 30)))
    for _ in range(30 if tier == "quick" else 2000):
        yield dict(d=int(rng.integers(1, 6)), kind=["inner", "first", "last", "both", "one"][rng.integers(5)],
                   n=int(rng.integers(3, 60)), seed=int(rng.integers(1 << 30)))


def check(c):
    from src.var_bayes.variational import VarGP
    from .vgp import Stub, Like, Kl
    rng = np.random.default_rng(c["seed"])
    d, n, kind = c["d"], c["n"], c["kind"]
    dt = float(rng.uniform(.01, .3))
    st = Stub(rng, n, d, dt)
    st.time_window = float(rng.normal()) + dt * np.arange(n)
    inner = 1 + obs_sets(rng, n - 2, 1 if kind == "one" else int(rng.integers(1, n - 1)))
    t = {"inner": inner, "one": inner, "dense": np.arange(n), "first": np.r_[0, inner],
         "last": np.r_[inner, n - 1], "both": np.r_[0, inner, n - 1]}[kind]
    y = rng.normal(size=(len(t),) if d == 1 else (len(t), d))
    tt = t if rng.random() < .5 else t.tolist()
    if len(t) == 1 and rng.random() < .3 and kind == "one":
        pass
    m0, s0 = (.3, .2) if d == 1 else (rng.normal(size=d), .2 * np.eye(d))
    v = VarGP(st, m0, s0, st.fwd, st.bwd, Like(st), Kl(st), y, tt)
    keep = frozen(t, y, st.time_window, st.sigma)
    with quiet():
        x = v.initialization()
        if rng.random() < .5:           # asked for again, after the first vector was used
            x += 1.
            if rng.random() < .5 and d > 1:
                st.sigma = spd(rng, d)
                keep = frozen(t, y, st.time_window, st.sigma)
            x = v.initialization()
    unchanged("initialization", keep, t, y, st.time_window, st.sigma)
    ok("shape of the vector", np.shape(x) == (n * d * d + n * d,), np.shape(x))
    tk = st.time_window
    ts, ys = [tk[i] for i in t], [y[i] for i in range(len(t))]
    if t[0] != 0:
        ts, ys = [tk[0]] + ts, [y[0]] + ys
    if t[-1] != n - 1:
        ts, ys = ts + [tk[-1]], ys + [y[-1]]
    mt = CubicSpline(np.array(ts), np.array(ys))(tk).reshape(n, d)
    S = np.diag(np.reshape(st.sigma, (d, d))) / (2 * .25)
    close("A(t)", x[:n * d * d].reshape(n, d, d), np.tile(np.diag(S), (n, 1, 1)), 1e-12)
    if d == 1:
        want = mt
    else:
        dm = np.zeros((n, d))
        dm[:-1] = (mt[1:] - mt[:-1]) / dt
        want = dm + S * mt
    close("b(t)", x[n * d * d:].reshape(n, d), want, 1e-9)
