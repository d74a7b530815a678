import numpy as np
from .common import *
from .c01 import gen, spell, step  # noqa: F401


def check(c):
    from src.var_bayes.bwd_ode import BwdOde
    rng = np.random.default_rng(c["seed"])
    d, n, dt, meth = c["d"], c["n"], c["dt"], c["method"]
    single = d == 0
    D = max(d, 1)
    with quiet():
        ode = BwdOde(dt, spell(meth, rng), single)
    later = Later()
    for rnd in range(3):
        amp = [1.0, 4.0, 3.0][rnd]
        A = amp * rng.normal(size=(n, D, D))
        gm, gs = rng.normal(size=(n, D)), sym(rng, n, D, D)
        om, os_ = np.zeros((n, D)), np.zeros((n, D, D))
        pick = rng.random(n) < [.4, 1.][int(rng.random() < .3)]
        om[pick] = 5 * rng.normal(size=(int(pick.sum()), D))
        os_[pick] = 5 * sym(rng, int(pick.sum()), D, D)
        A, gm, gs, om, os_ = whole(rnd == 2, A, gm, gs, om, os_)
        args = (A, gm, gs, om, os_)
        if single:
            args = (A[:, 0, 0].copy(), gm[:, 0].copy(), gs[:, 0, 0].copy(),
                    om[:, 0].copy(), os_[:, 0, 0].copy())
        keep = frozen(*args)
        with quiet():
            lam, psi = ode(*args)
        later.check()
        later.add("backward sweep", lam, psi)
        unchanged("backward sweep", keep, *args)
        ok("shape of lambda", np.shape(lam) == ((n,) if single else (n, D)), np.shape(lam))
        ok("shape of psi", np.shape(psi) == ((n,) if single else (n, D, D)), np.shape(psi))
        L, P = np.reshape(lam, (n, D)), np.reshape(psi, (n, D, D))
        close("final lambda", L[-1], np.zeros(D))
        close("final psi", P[-1], np.zeros((D, D)))
        fl = lambda x, p: -(p[0].T @ x - p[1])            # noqa: E731
        fp = lambda x, p: -(x @ p[0] + p[0].T @ x - p[1])  # noqa: E731
        for t in range(n - 1, 0, -1):
            if not max(np.abs(L[t]).max(), np.abs(P[t]).max()) < 1e100:
                break           # the unstable scheme is about to leave the floating-point range
            Am = .5 * (A[t] + A[t - 1])
            x = step(meth, dt, fl, L[t], (A[t], gm[t]), (Am, .5 * (gm[t] + gm[t - 1])),
                     (A[t - 1], gm[t - 1])) + om[t - 1]
            close("lambda at %d is one backward %s step plus jump" % (t - 1, meth),
                  L[t - 1], x, 1e-9, 1e-12)
            x = step(meth, dt, fp, P[t], (A[t], gs[t]), (Am, .5 * (gs[t] + gs[t - 1])),
                     (A[t - 1], gs[t - 1])) + os_[t - 1]
            close("psi at %d is one backward %s step plus jump" % (t - 1, meth),
                  P[t - 1], x, 1e-9, 1e-12)
