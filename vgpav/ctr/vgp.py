"""The components of the free energy as contracts (pure functions of their arguments'
contents) for the verification of VarGP and of the simulation."""
from .base import *


class Pure:
    """A deterministic function without side effects: equal arguments give equal results.
    outs: {name: shape function} or shape () for scalars; results are fresh arrays."""

    def __init__(self, s, name, make):
        self.s, self.name, self.make, self.table = s, name, make, []

    def __call__(self, *args):
        snaps = [freeze(a) for a in args]
        for old, r in self.table:
            if len(old) == len(snaps) and all(same(x, y) for x, y in zip(old, snaps)):
                return tuple(thaw(x) for x in r)
        r = tuple(self.make(*args))
        r = tuple(freeze(x) for x in r)
        self.table.append((snaps, r))
        return tuple(thaw(x) for x in r)


def freeze(a):
    if isinstance(a, Arr):
        g, sh = a.snap(), a.shape
        return ("arr", sh, g, a.kind)
    if V.is_scalar(a):
        return ("num", poly(a))
    if isinstance(a, SList):
        return ("list", a.chunks)
    if a is None or isinstance(a, (str, bool)):
        return ("obj", a)
    return ("id", a)


def thaw(f):
    if f[0] == "arr":
        return from_fn(f[1], f[2], f[3])
    return Num(f[1]) if f[0] == "num" else f[1]


def same(x, y):
    if x[0] != y[0]:
        if {x[0], y[0]} == {"arr", "num"}:
            a, n = (x, y) if x[0] == "arr" else (y, x)
            return a[1] == () and is_zero(a[2](()) - n[1])
        return False
    if x[0] == "num":
        return is_zero(x[1] - y[1])
    if x[0] == "arr":
        if len(x[1]) != len(y[1]) or not all(is_zero(a - b) for a, b in zip(x[1], y[1])):
            return False
        ss = [T.fresh("i") for _ in x[1]]
        idx = tuple(P(q) for q in ss)
        with C.binders(list(zip(ss, x[1]))):
            return is_zero(x[2](idx) - y[2](idx))
    if x[0] == "id":
        return x[1] is y[1]
    return x[1] is y[1] or x[1] == y[1]


class Model:
    """Any model: a window, noise, its inverse, and an energy that is a pure function."""

    def __init__(self, s, N, D, single):
        self.s, self.N, self.D, self.single_dim = s, N, D, single
        self.time_step = s.pos("dt")
        if single:
            self.sample_path = s.arr("path", N)
            self.sigma, self.inverse_sigma = s.pos("sig"), s.pos("isig")
        else:
            self.sample_path = s.arr("path", N, D)
            self.sigma = s.pd("sig", D, D)
            self.inverse_sigma = s.arr("isig", D, D)
        self.fixed = dict(self.__dict__)

    def energy(self, a, b, m, v, obs_t):
        e, ef, edf, gm, gs, gt, gq = self.pure(a, b, m, v, obs_t)
        return e, (ef, edf), (gm, gs, gt, gq)


def shapes(N, D, single):
    return ((N,), (N,)) if single else ((N, D), (N, D, D))


class Parts:
    """Model, forward/backward sweeps, likelihood and initial energy with their contracts."""

    def __init__(self, s, single):
        self.s, self.single = s, single
        s.job.assume("components are deterministic functions of their arguments and leave "
                     "them unchanged (each is verified under its own property)")
        N = self.N = s.int("N", 2)
        D = self.D = None if single else s.int("D", 2)
        vec, mat = shapes(N, D, single)
        k = [0]

        def fresh(*shs):
            def make(*args):
                k[0] += 1
                return [s.arr("r%d_%d" % (k[0], i), *sh) if sh else s.real("r%d_%d@%d" % (k[0], i, s.uid))
                        for i, sh in enumerate(shs)]
            return make
        self.model = Model(s, N, D, single)
        self.model.pure = Pure(s, "energy", fresh((), vec, mat, vec, mat, (), ()))
        self.fwd = Pure(s, "fwd", fresh(vec, mat))
        self.bwd = Pure(s, "bwd", fresh(vec, mat))
        self.lik_e = Pure(s, "likelihood", fresh(()))
        self.lik_g = Pure(s, "likelihood.gradients", fresh(vec, mat, ()))
        self.kl_e = Pure(s, "kl0", fresh(()))
        self.kl_g = Pure(s, "kl0.gradients", fresh((), ()))
        if single:
            self.m0, self.s0 = s.real("m0"), s.pos("s0")
        else:
            self.m0, self.s0 = s.arr("m0", D), s.pd("s0", D, D)
        self.size = poly(N) * 2 if single else None
        from .trapz import breaks
        self.obs_t, self.K, _ = breaks(s, "o", N, "array", 1)
        self.obs_y = s.arr("y", self.K) if single else s.arr("y", self.K, D)
        self.vecs = {}
        parts = self

        class Lik:
            def __call__(self, m, v):
                return parts.lik_e(m, v)[0]

            def gradients(self, m, v):
                return parts.lik_g(m, v)

        class KL:
            def __call__(self, m, v):
                return parts.kl_e(m, v)[0]

            def gradients(self, lam, psi):
                return parts.kl_g(lam, psi)
        self.lik, self.kl = Lik(), KL()

    def x(self, name):
        """A parameter vector, with its A(t) and b(t)."""
        s, N, D = self.s, self.N, self.D
        if self.single:
            x = s.arr(name, poly(N) + poly(N))
            return x, from_fn((poly(N),), lambda i: x.get(i)), \
                from_fn((poly(N),), lambda i: x.get((i[0] + poly(N),)))
        n, d = poly(N), poly(D)
        tot = mul(n, mul(d, d))
        x = s.arr(name, tot + mul(n, d))
        g = x.snap()
        A = from_fn((n, d, d), lambda i: g((mul(mul(i[0], d), d) + mul(i[1], d) + i[2],)))
        b = from_fn((n, d), lambda i: g((tot + mul(i[0], d) + i[1],)))
        return x, A, b

    def make(self, w):
        cls = w.get("src.var_bayes.variational", "VarGP")
        return cls(self.model, self.m0, self.s0, lambda *a: self.fwd(*a),
                   lambda *a: self.bwd(*a), self.lik, self.kl, self.obs_y, self.obs_t)

    def spec(self, A, b):
        """What an evaluation at (A, b) is."""
        m, v = self.fwd(A, b, self.m0, self.s0, self.model.sigma)
        e, (ef, edf), (gm, gs, *_) = self.model.energy(A, b, m, v, self.obs_t)
        om, os, _ = self.lik_g(m, v)
        lam, psi = self.bwd(A, gm, gs, om, os)
        F = self.kl_e(self.m0, self.s0)[0] + e + self.lik_e(m, v)[0]
        return F, dict(m0=self.m0, s0=self.s0, mt=m, st=v, Efx=ef, Edf=edf, lamt=lam, psit=psi)

    def published(self, label, vg, out):
        s = self.s
        pub = vg.arg_out
        for k, x in out.items():
            s.ob("%s %s is that of the vector" % (label, k),
                 k in pub and same(freeze(pub[k]), freeze(x)), "published %s differs" % k)

    def havoc(self, vg):
        """Any earlier state that keeps the initial moments."""
        vec, mat = shapes(self.N, self.D, self.single)
        for k, sh in (("mt", vec), ("st", mat), ("Efx", vec), ("Edf", mat), ("lamt", vec),
                      ("psit", mat)):
            vg.arg_out[k] = self.s.arr("old_" + k, *sh)

    def config(self, vg):
        """The configuration an evaluation must leave as it was."""
        return {k: freeze(getattr(vg, k)) for k in ("model", "fwd_ode", "bwd_ode", "kl0",
                                                    "likelihood", "dt", "dim_n", "dim_d",
                                                    "dim_tot", "obs_y", "obs_t")
                if hasattr(vg, k)}
