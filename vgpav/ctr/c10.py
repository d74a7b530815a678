"""Initial-state energy: the closed form of KL(N(m0,s0) || N(mu0,tau0)) and its derivatives."""
from .base import *
from .calc import diff, atom

CLS = "src.var_bayes.prior_kl0.PriorKL0"


def LFUN(kind, a):
    """Specification-level functional (inverse, log-determinant) of a matrix."""
    ss, body = L.generic(a)
    return lambda *i: T.mkfun(kind, a.shape, ss, (body,), tuple(P(x) for x in i))


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".__call__", CLS + ".gauss_1d", CLS + ".gauss_nd",
            CLS + ".gradients", CLS + ".gradients_1d", CLS + ".gradients_nd",
            "src.numerics.utilities.log_det (inlined)", "src.numerics.utilities.chol_inv (inlined)")
    J.trust("the KL divergence of two Gaussians is 1/2 (log|tau0| - log|s0| - D + "
            "tr(tau0^-1 s0) + z^T tau0^-1 z); d log|S| / dS = S^-1 for symmetric S")
    with J.scope("PriorKL0[scalar]") as s:
        w = s.world()
        mu, ta, m, v = s.real("mu0"), s.pos("tau0"), s.real("m0"), s.pos("s0")
        l, ps = s.real("lam0"), s.real("psi0")
        m1, v1 = s.real("m1"), s.pos("s1")
        cls = w.get("src.var_bayes.prior_kl0", "PriorKL0")

        def run():
            k = cls(mu, ta, True)
            e = k(m, v)
            k(m1, v1)
            g = k.gradients(m, v, l, ps)
            k.gradients(m1, v1, l, ps)
            return e, g, k(m, v)

        def post(r):
            z = poly(m) - poly(mu)
            want = T.scale(T.mkfn("log", (poly(ta),)) - T.mkfn("log", (poly(v),)) - 1 +
                           mul(mul(z, z) + poly(v), T.recip(poly(ta))), T.Q(1, 2))
            s.eq("energy is the divergence", r[0], want)
            s.eq("energy again", r[2], want)
            s.eq("derivative with respect to m0", r[1][0], diff(want, atom(poly(m))) + poly(l))
            s.eq("derivative with respect to s0", r[1][1], diff(want, atom(poly(v))) + poly(ps))
        s.explore(run, post)
    for fresh in (True, False):
        with J.scope("PriorKL0[vector%s]" % ("" if fresh else ", second use")) as s:
            w = s.world()
            D = s.int("D", 1)
            mu, ta, m, v = s.arr("mu0", D), s.pd("tau0", D, D), s.arr("m0", D), s.pd("s0", D, D)
            l, ps = s.arr("lam0", D), s.arr("psi0", D, D)
            m1, v1 = s.arr("m1", D), s.pd("s1", D, D)
            cls = w.get("src.var_bayes.prior_kl0", "PriorKL0")
            keep = s.unchanged("arguments unchanged", mu, ta, m, v, l, ps)

            def run():
                k = cls(mu, ta, False)
                if not fresh:
                    k(m1, v1), k.gradients(m1, v1, l, ps)
                e = k(m, v)
                if not fresh:
                    k(m1, v1)
                return e, k.gradients(m, v, l, ps)

            def post(r):
                keep()
                it, is_ = LFUN("inv", ta), LFUN("inv", v)
                z = lambda i: m.get((i,)) - mu.get((i,))
                want = T.scale(
                    LFUN("logdet", ta)() - LFUN("logdet", v)() - poly(D) +
                    S2(D, D, lambda i, j: mul(it(i, j), mul(z(i), z(j)) + v.get((i, j)))),
                    T.Q(1, 2))
                s.eq("energy is the divergence", r[0], want)
                s.arr_eq("derivative with respect to m0", r[1][0], (D,), lambda i:
                         S(D, lambda j: mul(it(i[0], j), z(j))) + l.get(i))
                s.arr_eq("derivative with respect to s0", r[1][1], (D, D), lambda i:
                         T.scale(it(*i) - is_(*i), T.Q(1, 2)) + ps.get(i))
            s.explore(run, post)
