import numpy as np
from .common import *


def gen(rng, tier):
    for mod in MODELS:
        for _ in range(8 if tier == "quick" else 400):
            yield dict(model=mod, seed=int(rng.integers(1 << 30)))


def indef(rng, d):
    e, V = np.linalg.eigh(spd(rng, d))
    k = int(rng.integers(d))
    e[k] = [-.3, -e[k]][rng.integers(2)]
    b = (V * e) @ V.T
    return .5 * (b + b.T)


def singular(rng, d):
    e = rng.uniform(.5, 2, d)
    e[int(rng.integers(d))] = 0.
    return np.diag(e)


def state(p):
    return frozen(p.sigma, p.inverse_sigma, p.theta)


def inv_ok(p, want, label):
    s, i = np.atleast_2d(p.sigma), np.atleast_2d(p.inverse_sigma)
    close(label + ": noise", s, np.atleast_2d(want), 1e-12)
    close(label + ": inverse noise", i, np.linalg.inv(np.atleast_2d(want)), 1e-8)


def related(rng, s, d):
    """A new valid noise; often one that shares something with the current one."""
    k = int(rng.integers(7))
    if k == 0:
        return spd(rng, d, float(np.exp(rng.uniform(-3, 3))))
    if k == 1:
        return np.diag(rng.uniform(.1, 3, d))
    if k == 2:                      # same diagonal, other correlations
        return s * (np.eye(d) + .5 * (1 - np.eye(d)))
    if k == 3:                      # one diagonal entry grows
        s = s.copy()
        i = int(rng.integers(d))
        s[i, i] += .7
        return s
    if k == 4:                      # same entries in another order
        q = rng.permutation(d)
        return s[np.ix_(q, q)]
    if k == 5:                      # a small relative change
        return s * (1 + 1e-3 * rng.random())
    return 2. * s


def check(c):
    rng = np.random.default_rng(c["seed"])
    mod = c["model"]
    if mod in ("DW", "OU"):
        th = float(rng.uniform(.2, 3))
        for bad in (0.0, -1.0, -1e-12, -float(rng.uniform(0, 9)), 0):
            raises("%s with noise %r" % (mod, bad), lambda: build(mod, bad, th, 1))
            if mod == "OU":
                raises("OU with drift %r" % bad, lambda: build(mod, 1., bad, 1))
        s = float(np.exp(rng.uniform(-8, 4)))
        p = build(mod, s, th, 1)
        inv_ok(p, s, "creation")
        for _ in range(8):
            r = rng.random()
            before = state(p)
            if r < .5:
                s = float(np.exp(rng.uniform(-8, 4)))
                p.sigma = s
                inv_ok(p, s, "accepted change")
                same("drift after a noise change", p.theta, before[2])
            elif r < .8:
                bad = [0., -1., -float(np.exp(rng.uniform(-8, 4)))][rng.integers(3)]
                raises("noise %r" % bad, lambda: setattr(p, "sigma", bad))
                for b, a in zip(before, state(p)):
                    same("state after a rejected noise change", a, b)
            elif mod == "OU":
                bad = [0., -1., -float(rng.uniform(0, 4))][rng.integers(3)]
                raises("drift %r" % bad, lambda: setattr(p, "theta", bad))
                for b, a in zip(before, state(p)):
                    same("state after a rejected drift change", a, b)
                p.theta = th2 = float(rng.uniform(.1, 5))
                close("drift", p.theta, th2)
                inv_ok(p, s, "after a drift change")
        return
    d = 3 if mod == "L63" else int(rng.integers(10, 14))
    kw = {} if mod == "L63" else {"dim_d": d}
    th = np.array([10, 28, 2.667]) if mod == "L63" else 8.
    if mod == "L96":
        for bad in (9, 3, 1, 0):
            raises("L96 with %d components" % bad, lambda: build(mod, 1.0, th, 1, dim_d=bad))
    bads = [0.0, -1.0, np.zeros((d, d)), indef(rng, d), -spd(rng, d), singular(rng, d),
            np.r_[np.ones(d - 1), 0.], np.r_[np.ones(d - 1), -2.], np.r_[-1., np.ones(d - 1)],
            np.ones(d + 1), np.ones(d - 1), np.eye(d + 1), np.ones((d, d + 1)), np.eye(d)[:-1],
            np.ones((1, d, d)), np.diag(-rng.uniform(.1, 1, d)), -float(rng.uniform(0, 3))]
    for bad in bads:
        raises("%s with noise %s" % (mod, rep(bad)), lambda: build(mod, bad, th, 1, **kw))
    v = rng.uniform(.2, 4, d)
    for arg, want in ((2.5, 2.5 * np.eye(d)), (v, np.diag(v)), (v.tolist(), np.diag(v)),
                      (np.diag(v), np.diag(v)), (3, 3. * np.eye(d))):
        inv_ok(build(mod, arg, th, 1, **kw), want, "creation")
    s = spd(rng, d)
    p = build(mod, s, th, 1, **kw)
    inv_ok(p, s, "creation")
    for _ in range(8):
        before = state(p)
        if rng.random() < .5:
            s = related(rng, s, d)
            p.sigma = s
            inv_ok(p, s, "accepted change")
            same("drift after a noise change", p.theta, before[2])
        else:
            bad = [b for b in bads if np.ndim(b) >= 1][rng.integers(len(bads) - 3)]
            raises("noise %s" % rep(bad), lambda: setattr(p, "sigma", bad))
            for b, a in zip(before, state(p)):
                same("state after a rejected noise change", a, b)
        p.theta = th
        inv_ok(p, s, "after a drift change")
