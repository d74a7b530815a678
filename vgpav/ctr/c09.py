"""Observation energy: expected negative Gaussian log-likelihood and its derivatives."""
from .base import *
from .calc import diff, gexpect, atom
from .c10 import LFUN
from .trapz import breaks

CLS = "src.var_bayes.gaussian_like.GaussianLikelihood"


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".__call__", CLS + ".gradients", CLS + ".gauss_1d",
            CLS + ".gauss_nd", CLS + ".gradients_1d", CLS + ".gradients_nd",
            "src.var_bayes.likelihood.Likelihood", "src.numerics.utilities.log_det (inlined)",
            "src.numerics.utilities.chol_inv (inlined)")
    J.trust("density of a multivariate Gaussian; expectation of a quadratic form")
    J.bounded.append("the derivative with respect to the noise is under contract in the "
                     "scalar case only (the property says so)")
    for op in (False, True):
        for kind in ("list", "array"):
            for changed in (False, True):
                if changed and not (op and kind == "list"):
                    continue
                tag = "operator %s, times %s%s" % ("given" if op else "none", kind,
                                                   ", noise changed" if changed else "")
                for ordered in (True, False):
                    if not ordered:
                        tag += ", in any order"
                    with J.scope("GaussianLikelihood[scalar, %s]" % tag) as s:
                        scalar(s, op, kind, changed, ordered)
                    with J.scope("GaussianLikelihood[vector, %s]" % tag) as s:
                        vector(s, op, kind, changed, ordered)
        tag = "operator %s, moments of whole numbers" % ("given" if op else "none")
        with J.scope("GaussianLikelihood[scalar, %s]" % tag) as s:
            scalar(s, op, "list", False, True, "i")
        with J.scope("GaussianLikelihood[vector, %s]" % tag) as s:
            vector(s, op, "list", False, True, "i")


def scalar(s, op, kind, changed, ordered, num="f"):
    w = s.world()
    N = s.int("N", 1)
    t, K, fam = breaks(s, "o", N, kind, 1, ordered)
    y, R0, R1 = s.arr("y", K), s.pos("R"), s.pos("R1")
    H = s.real("H") if op else None
    m, v = s.arr("m", N, kind=num), s.arr("s", N, kind=num)
    other = s.arr("m'", N), s.arr("s'", N)
    cls = w.get("src.var_bayes.gaussian_like", "GaussianLikelihood")
    keep = s.unchanged("arguments unchanged", y, m, v, t)

    def run():
        g = cls(y, t, R0, H, True)
        if changed:
            g(*other), g.gradients(*other)
            g.noise = R1
        e = g(m, v)
        g(*other)               # energies and gradients are asked for in any order
        return e, g.gradients(m, v)

    def post(r):
        keep()
        R = poly(R1 if changed else R0)
        h = poly(H) if op else ONE
        x, M, Vv, Y = (T.fresh("x", False) for _ in range(4))
        e = P(Y) - mul(h, P(x))
        ex = T.scale(mul(gexpect(mul(e, e), x, P(M), P(Vv)), T.recip(R)) + T.mkfn("log", (R,)) +
                     T.mkfn("log", (T.scale(poly(w.np.pi), 2),)), T.Q(1, 2))
        o = lambda k: T.app(fam, (P(k),))
        at = lambda e: (lambda k: T.subst(e, {Y: y.get((P(k),)), M: m.get((o(k),)),
                                              Vv: v.get((o(k),))}))
        s.eq("energy", r[0], S(K, at(ex)))
        ok = isinstance(r[1], tuple) and len(r[1]) == 3
        s.ob("three gradients", ok)
        if not ok:
            return
        for nm, g, d in (("mean", r[1][0], M), ("variance", r[1][1], Vv), ("noise", r[1][2], atom(R))):
            f = at(diff(ex, d))
            s.arr_eq("derivative with respect to the " + nm, g, (N,), lambda i:
                     S(K, lambda k: mul(delta(i[0], o(k)), f(k))))
    s.explore(run, post)


def vector(s, op, kind, changed, ordered, num="f"):
    w = s.world()
    N, D = s.int("N", 1), s.int("D", 1)
    O = s.int("O", 1) if op else D
    t, K, fam = breaks(s, "o", N, kind, 1, ordered)
    y, R0, R1 = s.arr("y", K, O), s.pd("R", O, O), s.pd("R1", O, O)
    H = s.arr("H", O, D) if op else None
    m, v = s.arr("m", N, D, kind=num), s.arr("s", N, D, D, sym=(1, 2), kind=num)
    other = s.arr("m'", N, D), s.arr("s'", N, D, D, sym=(1, 2))
    cls = w.get("src.var_bayes.gaussian_like", "GaussianLikelihood")
    keep = s.unchanged("arguments unchanged", *[x for x in (y, m, v, t, H, R0, R1) if x is not None])

    def run():
        g = cls(y, t, R0, H, False)
        if changed:
            g(*other), g.gradients(*other)
            g.noise = R1
        e = g(m, v)
        g(*other)               # energies and gradients are asked for in any order
        return e, g.gradients(m, v)

    def post(r):
        keep()
        R = R1 if changed else R0
        iR = LFUN("inv", R)
        h = (lambda i, j: H.get((P(i), P(j)))) if op else (lambda i, j: delta(i, j))
        o = lambda k: T.app(fam, (P(k),))
        res = lambda k, i: y.get((P(k), P(i))) - S(D, lambda d: mul(h(i, d), m.get((o(k), P(d)))))
        hsh = lambda k, i, j: S2(D, D, lambda p, q: mul(mul(h(i, p), v.get((o(k), P(p), P(q)))),
                                                        h(j, q)))
        l2p = T.mkfn("log", (T.scale(poly(w.np.pi), 2),))
        want = S(K, lambda k: T.scale(
            S2(O, O, lambda i, j: mul(iR(i, j), mul(res(k, i), res(k, j)) + hsh(k, i, j))) +
            LFUN("logdet", R)() + mul(poly(O), l2p), T.Q(1, 2)))
        s.eq("energy", r[0], want)
        ok = isinstance(r[1], tuple) and len(r[1]) == 3
        s.ob("three gradients", ok)
        if not ok:
            return
        gm = lambda k, d: neg(S2(O, O, lambda i, j: mul(mul(h(i, d), iR(i, j)), res(k, j))))
        gs = lambda p, q: T.scale(S2(O, O, lambda i, j: mul(mul(h(i, p), iR(i, j)), h(j, q))),
                                  T.Q(1, 2))
        s.arr_eq("derivative with respect to the mean", r[1][0], (N, D), lambda i:
                 S(K, lambda k: mul(delta(i[0], o(k)), gm(k, i[1]))))
        s.arr_eq("derivative with respect to the covariance", r[1][1], (N, D, D), lambda i:
                 S(K, lambda k: mul(delta(i[0], o(k)), gs(i[1], i[2]))))
    s.explore(run, post)
