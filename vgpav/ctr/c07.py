"""Lorenz-96 SDE energy on a ring of any size: drift averages exactly, the other terms as the
unscented estimates of the specified integrands, sample by sample."""
from .base import *
from .energy1d import window
from .trapz import breaks, trapz_spec, STUB

MOD = "src.dynamics.lorenz_96"
CLS = MOD + ".Lorenz96"


def contracts(J):
    J.under(CLS + ".energy", CLS + ".E96_drift", MOD + ".E96_drift_dx", MOD + ".l96",
            MOD + ".shift_vectors", MOD + ".fwd_1", MOD + ".bwd_1", MOD + ".bwd_2",
            "src.var_bayes.variational.grad_Esde_dm_ds", CLS + ".__init__", CLS + ".theta",
            CLS + ".sigma", "src.dynamics.stochastic_process.StochasticProcess.time_step")
    J.trust("E[x_a x_b] = m_a m_b + S_ab for the average drift")
    J.assume("the noise matrix is diagonal (the property says so)",
             "ut_approx returns the weighted average over the sample points of its mean and "
             "covariance, whatever the function (its properties are C08); chol_inv returns the "
             "inverse (C15)")
    with J.scope("grad_Esde_dm_ds") as s:
        gradient(s)
    for obs in ("none", "list", "array"):
        for hist in ("new", "changed", "theta changed", "sigma changed"):
            if hist != "new" and obs != "list":
                continue
            with J.scope("Lorenz96.energy[%s, breaks %s]" % (hist, obs)) as s:
                one(s, hist, obs, {"none": 0, "list": 1, "array": 2}[obs])


def ring(i, k, D):
    return T.mkfn("imod", (P(i) + k, D))


class UT:
    """Contract of ut_approx: the samples of (m[t], S[t]) are chi(t, k, .), weights w(k)."""

    def __init__(self, s, D):
        self.s, self.D, self.fams = s, D, []

    def chi(self, t, k, i):
        return T.app("chi@%d" % self.s.uid, tuple(P(z) for z in t) + (P(k), P(i)))

    def w(self, k):
        return T.app("w@%d" % self.s.uid, (P(k),))

    def key(self, m, v):
        """(which arrays, time) of a mean and covariance that are rows of known arrays."""
        i, j = T.fresh("i"), T.fresh("j")
        d = self.D
        with C.binders([(i, d), (j, d)]):
            pm, pv = m.get((P(i),)), v.get((P(i), P(j)))
            for n, (fm, fv) in enumerate(self.fams):
                for a in T.atoms_in(pm, {"app"}):
                    if a.a[0] == fm and len(a.a[1]) == 2:
                        t = a.a[1][0]
                        if is_zero(pm - T.app(fm, (t, P(i)))) and is_zero(
                                pv - T.app(fv, (t, P(i), P(j)))):
                            return T.num(n), t
        V.unsupported("ut_approx at something other than the moments of one time point")

    def __call__(self, fun, x_bar, x_cov, *args):
        m, v = V.as_arr(x_bar), V.as_arr(x_cov)
        d = self.D
        if not (V.same_shape(m.shape, (d,)) and V.same_shape(v.shape, (d, d))):
            V.unsupported("ut_approx: shapes")
        key = self.key(m, v)
        n = d * 2 + 1
        x = from_fn((n, d), lambda i: self.chi(key, i[0], i[1]))
        y = V.as_arr(fun(x, *args))
        if len(y.shape) != 2 or not is_zero(y.shape[0] - n):
            V.unsupported("ut_approx: one row for every sample is expected")
        g = y.snap()
        O = y.shape[1]
        mean = from_fn((O,), lambda i: S(n, lambda k: mul(self.w(k), g((P(k), i[0])))))
        return mean, from_fn((O, O), lambda i: T.app("utcov@%d" % self.s.uid, tuple(i)))


class Grad:
    """Contract of grad_Esde_dm_ds (own scope below): row k holds GM(t, k, i) = 1/2 var(k)
    (S^-1 x_k)_i, then GS(t, k, i, j) = 1/2 var(k) (S^-1 (x_k - m)(x_k - m)' S^-1)_ij, where
    var(k) = sum_i q_i (f(x_k) + A x_k - b)_i^2."""

    def __init__(self, s, D, ut, gets):
        self.s, self.D, self.ut, self.gets = s, D, ut, gets
        self.calls = 0

    def __call__(self, x, fun, mt, st, at, bt, q):
        x, at, bt, q = (V.as_arr(z) for z in (x, at, bt, q))
        mt, st = V.as_arr(mt), V.as_arr(st)
        d = self.D
        n = d * 2 + 1
        key = self.ut.key(mt, st)
        if not (V.same_shape(x.shape, (n, d)) and V.same_shape(at.shape, (d, d))
                and V.same_shape(bt.shape, (d,)) and V.same_shape(q.shape, (d,))):
            V.unsupported("grad_Esde_dm_ds: shapes")
        k, i, j = T.fresh("k"), T.fresh("i"), T.fresh("j")
        u, qs, A, B = self.gets(key[0])
        y = V.as_arr(fun(x))
        t = key[1]
        with C.binders([(k, n), (i, d), (j, d)]):
            k, i, j = P(k), P(i), P(j)
            X = lambda i: self.ut.chi(key, k, i)
            good = [x.get((k, i)) - X(i), y.get((k, i)) - drift(X, i, d, u),
                    at.get((i, j)) - A(t, i, j), bt.get((i,)) - B(t, i), q.get((i,)) - qs(i)]
            if not all(is_zero(z) for z in good):
                V.unsupported("grad_Esde_dm_ds: called with something else than the drift, the "
                              "variational parameters and the inverse noise of one time point")
        self.calls += 1
        return npcat(from_fn((n, d), lambda i: self.gm(key, i[0], i[1])),
                     from_fn((n, d, d), lambda i: self.gs(key, i[0], i[1], i[2])), n, d)

    def gm(self, t, k, i):
        return T.app("GM@%d" % self.s.uid, tuple(P(z) for z in t) + (P(k), P(i)))

    def gs(self, t, k, i, j):
        return T.app("GS@%d" % self.s.uid, tuple(P(z) for z in t) + (P(k), P(i), P(j)))


def npcat(a, b, n, d):
    from ..eng import npshim
    return npshim.concatenate((a, V.as_arr(b).reshape(n, d * d)), axis=1)


def drift(x, i, d, u):
    return mul(x(ring(i, 1, d)) - x(ring(i, -2, d)), x(ring(i, -1, d))) - x(i) + u


def gradient(s):
    """grad_Esde_dm_ds for any drift, state dimension and number of samples."""
    n, D = s.int("n", 1), s.int("D", 1)
    w = s.world(replace={"src.numerics.utilities:chol_inv": chol_inv})
    x, f = s.arr("x", n, D), s.arr("f", n, D)
    m, v = s.arr("m", D), s.pd("S", D, D)
    a, b, q = s.arr("a", D, D), s.arr("b", D), s.arr("q", D)
    keep = s.unchanged("arguments unchanged", x, m, v, a, b, q)
    d = poly(D)

    def fun(z):
        if z is not x:
            V.unsupported("the drift is asked for at other points")
        return f

    def run():
        return w.get("src.var_bayes.variational", "grad_Esde_dm_ds")(x, fun, m, v, a, b, q)

    def post(r):
        keep()
        r = V.as_arr(r)
        s.ob("one row for every sample", len(r.shape) == 2 and is_zero(r.shape[0] - poly(n)) and is_zero(
            r.shape[1] - d - d * d), "shape")
        iv = L.inverse(v)
        I = lambda i, j: iv.get((P(i), P(j)))
        X = lambda k, i: x.get((P(k), P(i)))
        Z = lambda k, i: X(k, i) - m.get((P(i),))
        var = lambda k: S(D, lambda i: mul(q.get((P(i),)), power2(f.get((P(k), P(i))) + S(
            D, lambda j: mul(a.get((P(i), P(j))), X(k, j))) - b.get((P(i),)))))
        half = T.Q(1, 2)
        s.arr_eq("weighted for the mean", r[:, :D], (n, D), lambda i: T.scale(mul(var(i[0]), S(
            D, lambda j: mul(I(i[1], j), X(i[0], j)))), half))
        s.arr_eq("weighted for the covariance", r[:, D:].reshape(n, D, D), (n, D, D),
                 lambda i: T.scale(mul(var(i[0]), mul(S(D, lambda j: mul(I(i[1], j), Z(i[0], j))), S(
                     D, lambda j: mul(Z(i[0], j), I(j, i[2]))))), half))
    s.explore(run, post)


def chol_inv(x):
    from ..eng import npshim
    a = npshim.arr(x)
    inv = L.inverse(a)
    return inv, L.solve(L.cholesky(a), ident_of(a.shape[0]))


def one(s, hist, obs, nd):
    D = s.int("D", 10)
    d = poly(D)
    ut = UT(s, d)
    par = {}
    gets = lambda n: par["now"] if is_zero(P(n)) else par["then"]
    grad = Grad(s, d, ut, gets)
    w = s.world(replace=dict(STUB, **{"src.numerics.utilities:ut_approx": ut,
                                      "src.var_bayes.variational:grad_Esde_dm_ds": grad,
                                      "src.numerics.utilities:chol_inv": chol_inv}))
    N, dt = s.int("N", 2), s.pos("dt")
    a, b, m = s.arr("a", N, D, D), s.arr("b", N, D), s.arr("m", N, D)
    v = s.pd("s", N, D, D)
    o = None if obs == "none" else breaks(s, "o", N, obs)[0]
    sg = [s.arr("q%d" % k, D) for k in range(2)]
    for k in range(2):
        T.FAM["q%d@%d" % (k, s.uid)]["pos"] = True
        C.POS["q%d@%d" % (k, s.uid)] = "pos"
    th = [s.real("th%d" % k) for k in range(2)]
    diag = lambda q: from_fn((d, d), lambda i: mul(delta(i[0], i[1]), q.get((i[0],))))
    sc = s.pos("sc")
    q0 = [sc, sg[0], diag(sg[0])][nd]
    N0, dt0 = s.int("N0", 2), s.pos("dt0")
    old = [s.arr("a0", N0, D, D), s.arr("b0", N0, D), s.arr("m0", N0, D), s.pd("s0", N0, D, D)]
    ut.fams = [("m@%d" % s.uid, "s@%d" % s.uid), ("m0@%d" % s.uid, "s0@%d" % s.uid)]
    keep = s.unchanged("arguments unchanged", *[x for x in (a, b, m, v, o) if x is not None])
    A = lambda arr: lambda t, i, j: arr.get((P(t), P(i), P(j)))
    B = lambda arr: lambda t, i: arr.get((P(t), P(i)))

    def run():
        p = w.get(MOD, "Lorenz96")(q0, th[0], 3, D)
        par["q"] = (lambda i: poly(sc)) if nd == 0 else (lambda i: sg[0].get((P(i),)))
        par["t"] = poly(th[0])
        if hist != "new":
            window(s, p, N0, dt0, "0")
            par["then"] = (par["t"], inv(par["q"]), A(old[0]), B(old[1]))
            p.energy(*old, None)
        if hist in ("changed", "theta changed"):
            p.theta = th[1]
            par["t"] = poly(th[1])
        if hist in ("changed", "sigma changed"):
            p.sigma = diag(sg[1])
            par["q"] = lambda i: sg[1].get((P(i),))
        window(s, p, N, dt)
        par["now"] = (par["t"], inv(par["q"]), A(a), B(b))
        return p.energy(a, b, m, v, o)

    def post(r):
        keep()
        ok = isinstance(r, tuple) and len(r) == 3 and len(r[1]) == 2 and len(r[2]) == 4
        s.ob("results", ok, "not (energy, (E f, E df), four gradients)")
        if not ok:
            return
        E, (Ef, Edf), (gm, gs, gt, gq) = r
        q, u = (lambda i: T.recip(par["q"](i))), par["t"]
        f = lambda x, i: drift(x, i, d, u)
        M = lambda t: (lambda i: m.get((P(t), P(i))))
        X = lambda t, k: (lambda i: ut.chi((ZERO, t), k, i))
        res = lambda t, x, i: f(x, i) + S(d, lambda j: mul(a.get((P(t), P(i), P(j))), x(j))) - b.get(
            (P(t), P(i)))
        sq = lambda t, k, i: power2(res(t, X(t, k), i))
        n = d * 2 + 1
        F1 = lambda t, k: T.scale(S(d, lambda i: mul(q(i), sq(t, k, i))), T.Q(1, 2))
        F = lambda t: S(n, lambda k: mul(ut.w(k), F1(t, k)))
        ef = lambda t, i: f(M(t), i) + v.get((P(t), ring(i, 1, d), ring(i, -1, d))) - v.get(
            (P(t), ring(i, -2, d), ring(i, -1, d)))
        s.eq("energy is the trapezoidal integral", E, trapz_spec(F, N, dt))
        s.arr_eq("average drift", Ef, (N, D), lambda i: ef(*i))

        def jac(i):
            t, r_, c = i
            x = M(t)
            e = lambda k: T.bracket("eq", P(c) - ring(r_, k, d))
            return mul(e(1), x(ring(r_, -1, d))) - mul(e(-2), x(ring(r_, -1, d))) + mul(
                e(-1), x(ring(r_, 1, d)) - x(ring(r_, -2, d))) - e(0)
        s.arr_eq("average Jacobian", Edf, (N, D, D), jac)
        I = lambda t, i, j: L.inverse(from_fn((d, d), lambda z: v.get((P(t),) + tuple(z)))).get(
            (P(i), P(j)))
        key = lambda t: (ZERO, P(t))
        s.arr_eq("gradient with respect to the mean", gm, (N, D), lambda i: S(n, lambda k: mul(
            ut.w(k), grad.gm(key(i[0]), k, i[1]))) - mul(
                F(i[0]), S(d, lambda j: mul(I(i[0], i[1], j), m.get((i[0], P(j)))))))
        s.arr_eq("gradient with respect to the covariance", gs, (N, D, D), lambda i: T.scale(
            S(n, lambda k: mul(ut.w(k), grad.gs(key(i[0]), k, i[1], i[2]))) - mul(
                F(i[0]), I(i[0], i[1], i[2])), T.Q(1, 2)))
        av = lambda t, i: ef(t, i) + S(d, lambda j: mul(a.get((P(t), P(i), P(j))), m.get(
            (P(t), P(j))))) - b.get((P(t), P(i)))
        s.arr_eq("gradient with respect to the forcing", gt, (D,), lambda i: mul(
            q(i[0]), trapz_spec(lambda t: av(t, i[0]), N, dt)))
        g2 = V.as_arr(gq)
        g = from_fn((d,), lambda i: g2.get((i[0],) * len(g2.shape)))
        s.arr_eq("gradient with respect to the noise", g, (D,), lambda i: T.scale(mul(
            power2(q(i[0])), trapz_spec(lambda t: S(n, lambda k: mul(ut.w(k), sq(t, k, i[0]))),
                                        N, dt)), T.Q(-1, 2)))
    s.explore(run, post)


def inv(q):
    return lambda i: T.recip(q(i))


def power2(q):
    return mul(q, q)
