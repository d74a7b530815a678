import numpy as np
from .common import *
from .vgp import gen, problem, vector, reference, split  # noqa: F401


def check(c):
    rng = np.random.default_rng(c["seed"])
    v, p, parts, info, d = problem(c, rng)
    n, dt = c["n"], info[4]
    xs = [vector(rng, n, d) for _ in range(2)]
    work, later = np.empty_like(xs[0]), Later()
    for j in [0, 1, 0, 0, 2, 3]:
        if j < 2:
            x = xs[j]
        else:                       # one array, filled anew for each evaluation
            x = work
            x[:] = xs[j - 2]
        keep = frozen(x)
        _, o = reference(x, v, p, parts, info, n, d)
        with quiet():
            if rng.random() < .5:
                v.free_energy(x)
                g = v.gradient(x)
            else:
                g = v.gradient(x, True) if rng.random() < .5 else v.gradient(x, eval_fun=True)
        unchanged("gradient", keep, x)
        later.check()
        later.add("gradient", g)
        pub = v.arg_out
        for k, w in o.items():
            close("published %s after the gradient" % k, pub[k], w, 1e-10)
        A, b = split(x, n, d)
        A, b = A.reshape(n, d, d), b.reshape(n, d)
        m, lam, Ef = (np.reshape(o[k], (n, d)) for k in ("mt", "lamt", "Efx"))
        S, psi, Edf = (np.reshape(o[k], (n, d, d)) for k in ("st", "psit", "Edf"))
        iS = np.linalg.inv(np.reshape(p.sigma, (d, d)))
        ga, gb = np.zeros((n, d, d)), np.zeros((n, d))
        for k in range(n):
            q = iS @ (b[k] - A[k] @ m[k] - Ef[k])
            gb[k] = dt * (q + lam[k])
            ga[k] = dt * (iS @ (Edf[k] + A[k]) @ S[k] - np.outer(q, m[k]) - np.outer(lam[k], m[k])
                          - 2 * psi[k] @ S[k])
        want = np.r_[ga.ravel(), gb.ravel()]
        close("Lagrangian gradient", g, want, 1e-9)
