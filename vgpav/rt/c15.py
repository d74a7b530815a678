import numpy as np
from .common import *


def gen(rng, tier):
    for d in (1, 2, 3, 5, 8, 20):
        for kind in ("full", "diag", "list", "int"):
            yield dict(kind=kind, d=d, seed=int(rng.integers(1 << 30)))
    for kind in ("scalar", "reject", "log"):
        for _ in range(5):
            yield dict(kind=kind, d=int(rng.integers(2, 6)), seed=int(rng.integers(1 << 30)))
    for _ in range(60 if tier == "quick" else 4000):
        yield dict(kind="full", d=int(rng.integers(1, 15)), seed=int(rng.integers(1 << 30)))


def check(c):
    from src.numerics.utilities import chol_inv, log_det, safe_log
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    if c["kind"] in ("full", "diag", "list", "int"):
        x = spd(rng, d, float(np.exp(rng.uniform(-3, 3))), .1)
        if c["kind"] == "diag":
            x = np.diag(np.diag(x))
        if c["kind"] == "int":
            x = np.round(10 * spd(rng, d)).astype(int)
            x = x + x.T + 40 * np.eye(d, dtype=int)
        a = x.tolist() if c["kind"] == "list" else x
        keep = frozen(a)
        X, C = chol_inv(a)
        L = log_det(a)
        unchanged("chol_inv/log_det", keep, a)
        inv = np.linalg.inv(x)
        sc = np.abs(inv).max()
        close("inverse", X, inv, 1e-8, scale=sc)
        close("factor C'C", np.asarray(C).T @ np.asarray(C), inv, 1e-8, scale=sc)
        close("log determinant", L, np.linalg.slogdet(x)[1], 1e-9, atol=1e-9)
        pm = rng.permutation(d)         # other matrices of the same size, entries and sum
        y = x[:, pm][pm] + 0.
        if d > 1:
            e = 1e-2 * y[0, 0]
            y[0, 0] += e
            y[1, 1] -= e
            if np.all(np.linalg.eigvalsh(y) > 0):
                Y, D = chol_inv(y)
                iy = np.linalg.inv(y)
                close("inverse of another matrix", Y, iy, 1e-8, scale=np.abs(iy).max())
                close("log determinant of another matrix", log_det(y),
                      np.linalg.slogdet(y)[1], 1e-9, atol=1e-9)
            close("inverse, still", X, inv, 1e-8, scale=sc)
            close("factor C'C, still", np.asarray(C).T @ np.asarray(C), inv, 1e-8, scale=sc)
        v = np.abs(rng.normal(size=d)) + .1
        close("log determinant of a vector", log_det(v), np.log(v).sum(), 1e-9, atol=1e-9)
        close("log determinant of a list", log_det(v.tolist()), np.log(v).sum(), 1e-9, atol=1e-9)
    elif c["kind"] == "scalar":
        v = float(np.exp(rng.uniform(-20, 20)))
        for w in (v, np.float64(v), np.array(v), 3, np.array(7)):
            X, C = chol_inv(w)
            close("inverse of a scalar", X, 1 / float(w), 1e-12)
            close("factor of a scalar", np.asarray(C) ** 2, 1 / float(w), 1e-12)
            close("log of a scalar", log_det(w), np.log(float(w)), 1e-12)
    elif c["kind"] == "reject":
        raises("log_det of a non-square matrix", lambda: log_det(np.ones((d, d + 1))))
        raises("log_det of a non-square matrix", lambda: log_det(np.ones((d + 2, d))))
        raises("log_det of a non-square matrix", lambda: log_det(np.eye(d + 1)[:d]))
        raises("log_det of a non-square matrix", lambda: log_det(np.eye(d + 1)[:, :d]))
        q = spd(rng, d)
        e, V = np.linalg.eigh(q)
        for kind in ("neg", "one"):
            e2 = -e if kind == "neg" else np.r_[-.5 * e[0], e[1:]]
            b = (V * e2) @ V.T
            b = .5 * (b + b.T)
            raises("log_det of an indefinite matrix", lambda: log_det(b))
            raises("chol_inv of an indefinite matrix", lambda: chol_inv(b))
        v = np.abs(rng.normal(size=d + 2)) + .1
        v[:2] *= -1.
        raises("log_det of a vector with negative entries", lambda: log_det(v))
        raises("log_det of a diagonal matrix with negative entries", lambda: log_det(np.diag(v)))
        raises("chol_inv of a diagonal matrix with negative entries", lambda: chol_inv(np.diag(v)))
        z = -np.eye(d)
        raises("log_det of -I", lambda: log_det(z))
        raises("chol_inv of -I", lambda: chol_inv(z))
    else:
        lo, hi = 1e-300, 1e300
        x = np.r_[np.exp(rng.uniform(-600, 600, 20)), lo, hi, 1e-308, 0., -3., -1e305, 1.7e308,
                  np.exp(rng.uniform(-3, 3, 5))]
        keep = frozen(x)
        close("guarded log", safe_log(x), np.log(np.clip(x, lo, hi)), 1e-12)
        X2 = x[:24].reshape(4, 6)
        close("guarded log of a matrix", safe_log(X2), np.log(np.clip(X2, lo, hi)), 1e-12)
        for v in x:
            close("guarded log of a scalar", safe_log(float(v)), np.log(np.clip(v, lo, hi)), 1e-12,
                  atol=1e-12)
        unchanged("safe_log", keep, x)
