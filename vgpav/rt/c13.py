import numpy as np
from .common import *

KINDS = ("quad", "rosen", "wave", "wrong", "flat", "steep", "linear", "random", "noisygrad", "zero")


def gen(rng, tier):
    for kind in KINDS:
        for it in (1, 2, 5, 40):
            yield dict(kind=kind, it=it, d=int(rng.integers(1, 7)), seed=int(rng.integers(1 << 30)))
    for _ in range(60 if tier == "quick" else 5000):
        yield dict(kind=KINDS[rng.integers(len(KINDS))], it=int(rng.integers(1, 120)),
                   d=int(rng.integers(1, 12)), seed=int(rng.integers(1 << 30)))


def objective(c, rng):
    d, k = c["d"], c["kind"]
    Q = spd(rng, d, 1., .05)
    z = rng.normal(size=d)
    if k in ("quad", "wrong", "noisygrad"):
        f = lambda x: float(.5 * x @ Q @ x + z @ x)      # noqa: E731
        g = lambda x: Q @ x + z                          # noqa: E731
    elif k == "rosen":
        def f(x):
            return float(np.sum((1 - x) ** 2) + 20 * np.sum((x[1:] - x[:-1] ** 2) ** 2))

        def g(x):
            r = -2 * (1 - x)
            u = x[1:] - x[:-1] ** 2
            r[1:] += 40 * u
            r[:-1] -= 80 * u * x[:-1]
            return r
    elif k == "wave":
        f = lambda x: float(np.sum(np.sin(3 * x)) + .1 * x @ x)   # noqa: E731
        g = lambda x: 3 * np.cos(3 * x) + .2 * x                  # noqa: E731
    elif k == "flat":
        f = lambda x: float(1e-3 * np.sum(x ** 4))                # noqa: E731
        g = lambda x: 4e-3 * x ** 3                               # noqa: E731
    elif k == "steep":
        f = lambda x: float(1e4 * x @ Q @ x)                      # noqa: E731
        g = lambda x: 2e4 * Q @ x                                 # noqa: E731
    elif k == "linear":
        f = lambda x: float(np.sum(np.abs(x)))                    # noqa: E731
        g = lambda x: np.sign(x)                                  # noqa: E731
    elif k == "random":
        f = lambda x: float(np.cos(1e3 * (z @ x)) + 2)            # noqa: E731
        g = lambda x: np.cos(37 * x + z)                          # noqa: E731
    else:
        f = lambda x: 3.                                          # noqa: E731
        g = lambda x: np.zeros(d)                                 # noqa: E731
    if k == "wrong":
        g0 = g
        g = lambda x: -g0(x) + .3 * np.roll(z, 1)                 # noqa: E731
    if k == "noisygrad":
        g1 = g
        g = lambda x: g1(x) + np.sin(1e5 * x)                     # noqa: E731
    return f, g


def check(c):
    from src.numerics.optim_scg import SCG
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    f0, g0 = objective(c, rng)
    tag = object() if rng.random() < .3 else None
    n_f, n_df, pts = [0], [0], []

    def f(x, *a):
        n_f[0] += 1
        x = np.asarray(x)
        ok("point passed to the objective", x.shape == (d,))
        pts.append(x.copy())
        return f0(x)

    def df(x, *a, eval_fun=False, **kw):
        n_df[0] += 1
        if eval_fun or (a and a[0] is True):
            n_f[0] += 1
        ok("point passed to the gradient", np.shape(x) == (d,))
        return g0(np.asarray(x))
    opt = {"max_it": c["it"]}
    if rng.random() < .5:
        opt.update(x_tol=float(10. ** -rng.integers(1, 12)), f_tol=float(10. ** -rng.integers(1, 12)))
    if rng.random() < .2:
        opt["display"] = True
    x0 = 2 * rng.normal(size=d)
    if rng.random() < .2:
        x0 = np.round(x0)
    xin = x0 if rng.random() < .7 or d == 1 else x0.reshape(1, d)
    keep = frozen(xin)
    with quiet(), np.errstate(all="ignore"):
        s = SCG(f, df, opt)
        x, fx = s(xin) if tag is None else s(xin, tag)
    unchanged("SCG", keep, xin)
    fs = f0(x0)
    ok("finite result", np.all(np.isfinite(x)))
    v = f0(np.asarray(x).ravel())
    close("reported value is the objective at the returned point", fx, v, 1e-12, scale=abs(v) + 1e-12)
    ok("never worse than the starting point", float(fx) <= fs + 1e-9 * (abs(fs) + 1), (fx, fs))
    st = s.statistics
    ok("function evaluations counted", int(st["f_eval"]) == n_f[0], (st["f_eval"], n_f[0]))
    ok("gradient evaluations counted", int(st["df_eval"]) == n_df[0], (st["df_eval"], n_df[0]))
    it = int(st["MaxIt"])
    ok("iteration limit", it <= c["it"] and n_df[0] <= 2 * c["it"] + 1, (it, n_df[0]))
    h = np.asarray(st["fx"])[:it]
    if len(h) and (it < c["it"] or h[-1] == 0):
        h = h[:-1]           # the last iteration may stop before recording
    if len(h):
        tol = 1e-9 * (np.abs(h).max() + 1)
        ok("accepted values never increase", np.all(np.diff(h) <= tol), h)
        ok("recorded values start no higher", h[0] <= fs + tol)
        ok("reported value below every recorded one", float(fx) <= h.min() + tol, (fx, h.min()))
