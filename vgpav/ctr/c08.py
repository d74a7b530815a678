"""Unscented transform: exact for affine maps and quadratic means, in every dimension."""
from .base import *

MOD = "src.numerics.utilities"


def contracts(J):
    J.under(MOD + ".ut_approx")
    J.trust("laws of the Cholesky factor")
    for kind in ("affine", "quadratic", "samples"):
        with J.scope("ut_approx[%s]" % kind) as s:
            one(s, kind)


def one(s, kind):
    w = s.world()
    D, O = s.int("D", 1), s.int("O", 1)
    m, Sg = s.arr("m", D), s.pd("S", D, D)
    M, c, Q = s.arr("M", O, D), s.arr("c", O), s.arr("Q", O, D, D)
    d = poly(D)
    keep = s.unchanged("arguments unchanged", m, Sg)
    tag = object()
    seen = []

    def fun(x, *a):
        seen.append((x, a, x.snap()))
        n = x.shape[0]
        if kind == "samples":
            return ident_of(n)
        g = x.snap()

        def f(i):
            k, o = i
            r = c.get((o,)) + S(D, lambda p: mul(M.get((o, P(p))), g((k, P(p)))))
            if kind == "quadratic":
                r = r + S2(D, D, lambda p, q: mul(mul(Q.get((o, P(p), P(q))), g((k, P(p)))),
                                                  g((k, P(q)))))
            return r
        return from_fn((n, poly(O)), f)

    def run():
        del seen[:]
        return w.get(MOD, "ut_approx")(fun, m, Sg, tag, 7), list(seen)

    def post(r):
        (y, cov), calls = r
        keep()
        s.ob("extra arguments are passed through unchanged", all(
            len(a) == 2 and a[0] is tag and V.is_scalar(a[1]) and is_zero(poly(a[1]) - 7)
            for _, a, _ in calls), "other arguments")
        s.ob("one evaluation on 2D+1 samples", len(calls) == 1 and len(calls[0][0].shape) == 2 and
             is_zero(calls[0][0].shape[0] - d * 2 - 1) and is_zero(calls[0][0].shape[1] - d))
        mean = lambda o: c.get((o,)) + S(D, lambda p: mul(M.get((o, P(p))), m.get((P(p),))))
        if kind == "affine":
            s.arr_eq("mean of an affine map", y, (O,), lambda i: mean(i[0]))
            s.arr_eq("covariance of an affine map", cov, (O, O), lambda i: S2(
                D, D, lambda p, q: mul(mul(M.get((i[0], P(p))), Sg.get((P(p), P(q)))),
                                       M.get((i[1], P(q))))))
        elif kind == "quadratic":
            s.arr_eq("mean of a quadratic map", y, (O,), lambda i: mean(i[0]) + S2(
                D, D, lambda p, q: mul(Q.get((i[0], P(p), P(q))), Sg.get((P(p), P(q))) +
                                       mul(m.get((P(p),)), m.get((P(q),))))))
        else:
            K = d * 2 + 1
            X = calls[0][2]
            s.eq("weights sum to one", S(K, lambda k: y.get((P(k),))), ONE)
            s.arr_eq("weighted sample mean is m", from_fn((d,), lambda i: S(K, lambda k: mul(
                y.get((P(k),)), X((P(k), i[0]))))), (d,), lambda i: m.get(i))
            dev = lambda k, i: X((P(k), i)) - m.get((i,))
            s.arr_eq("weighted sample covariance is S", from_fn((d, d), lambda i: S(
                K, lambda k: mul(mul(y.get((P(k),)), dev(k, i[0])), dev(k, i[1])))), (d, d),
                lambda i: Sg.get(i))
    s.explore(run, post)
