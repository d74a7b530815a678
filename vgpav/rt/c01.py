import numpy as np
from .common import *

METHODS = ("euler", "heun", "rk2", "rk4")


def _cfg(rng, tier):
    i = 0
    for meth in METHODS:
        for d in (0, 1, 2, 3, 5):
            for n in (1, 2, 3, 8, 40):
                i += 1
                yield dict(method=meth, d=d, n=n, seed=int(rng.integers(1 << 30)),
                           dt=[0.01, 0.1, 0.003, 0.25][i % 4])
    for meth in METHODS:            # long and large
        yield dict(method=meth, d=0, n=5001, seed=int(rng.integers(1 << 30)), dt=0.002)
        yield dict(method=meth, d=1, n=1500, seed=int(rng.integers(1 << 30)), dt=0.002)
        yield dict(method=meth, d=41, n=3, seed=int(rng.integers(1 << 30)), dt=0.01)
    extra = 40 if tier == "quick" else 1500
    for _ in range(extra):
        yield dict(method=METHODS[rng.integers(4)], d=int(rng.integers(0, 9)),
                   n=int(rng.integers(1, 400 if rng.random() < .2 else 30)),
                   seed=int(rng.integers(1 << 30)),
                   dt=float(np.exp(rng.uniform(-7, -1))))


def gen(rng, tier):
    for c in _cfg(rng, tier):
        yield c


def spell(meth, rng):
    return [meth, meth.upper(), meth.capitalize()][rng.integers(3)]


def fm(m, a, b):
    return -a @ m + b


def fs(s, a, q):
    return -a @ s - s @ a.T + q


def step(meth, h, f, x, p0, pm, p1):
    """One textbook step of x' = f(x, p)."""
    if meth == "euler":
        return x + h * f(x, p0)
    if meth == "heun":
        k1 = f(x, p0)
        return x + h / 2 * (k1 + f(x + h * k1, p1))
    if meth == "rk2":
        return x + h * f(x + h / 2 * f(x, p0), pm)
    k1 = f(x, p0)
    k2 = f(x + h / 2 * k1, pm)
    k3 = f(x + h / 2 * k2, pm)
    k4 = f(x + h * k3, p1)
    return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def check(c):
    from src.var_bayes.fwd_ode import FwdOde
    rng = np.random.default_rng(c["seed"])
    d, n, dt, meth = c["d"], c["n"], c["dt"], c["method"]
    single = d == 0
    D = max(d, 1)
    with quiet():
        ode = FwdOde(dt, spell(meth, rng), single)
    later = Later()
    for rnd in range(3):
        amp = [1.0, 4.0, 3.0][rnd]
        A = amp * rng.normal(size=(n, D, D))
        b = amp * rng.normal(size=(n, D))
        m0 = rng.normal(size=D)
        s0 = spd(rng, D)
        q = spd(rng, D, 0.7) if rng.random() < .7 else np.diag(rng.uniform(.2, 3, D))
        A, b = whole(rnd == 2, A, b)
        odd = rng.random() < .2         # starting values and noise may be whole numbers too
        m0, = whole(odd, m0)
        s0, q = whole_spd(odd, s0, q)
        args = (A, b, m0, s0, q)
        if single:
            args = (A[:, 0, 0].copy(), b[:, 0].copy(), m0[0].item(), s0[0, 0].item(),
                    q[0, 0].item())
        keep = frozen(*args)
        with quiet():
            m, s = ode(*args)
        later.check()
        later.add("forward sweep", m, s)
        unchanged("forward sweep", keep, *args)
        shp = (n,) if single else (n, D)
        ok("shape of the means", np.shape(m) == shp, np.shape(m))
        shs = (n,) if single else (n, D, D)
        ok("shape of the covariances", np.shape(s) == shs, np.shape(s))
        M, S = np.reshape(m, (n, D)), np.reshape(s, (n, D, D))
        close("initial mean", M[0], m0)
        close("initial covariance", S[0], s0)
        for k in range(n - 1):
            if not max(np.abs(M[k]).max(), np.abs(S[k]).max()) < 1e100:
                break           # the unstable scheme is about to leave the floating-point range
            Am, bm = .5 * (A[k] + A[k + 1]), .5 * (b[k] + b[k + 1])
            x = step(meth, dt, lambda z, p: fm(z, *p), M[k], (A[k], b[k]), (Am, bm),
                     (A[k + 1], b[k + 1]))
            close("mean at %d is one %s step" % (k + 1, meth), M[k + 1], x, 1e-9, 1e-12)
            x = step(meth, dt, lambda z, p: fs(z, p, q), S[k], A[k], Am, A[k + 1])
            close("covariance at %d is one %s step" % (k + 1, meth), S[k + 1], x, 1e-9, 1e-12)
