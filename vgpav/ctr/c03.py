"""GaussianMoments: values by Stein's recursion, derivatives by formal differentiation, for
every integer order and every array length."""
from .base import *
from .calc import diff, gmoment, atom

CLS = "src.var_bayes.gaussian_moments.GaussianMoments"


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".__call__", CLS + ".dm", CLS + ".ds")
    J.trust("Stein's identity for Gaussian moments")
    J.assume("the order is an integer")
    for what, lo in (("moment", 0), ("dm", 1), ("ds", 1)):
        with J.scope("GaussianMoments." + what) as s:
            w = s.world()
            n = s.int("n", 1)
            m, v = s.arr("m", n), s.arr("v", n)
            keep = s.unchanged("arguments unchanged", m, v)
            o = s.int("order")
            cls = w.get("src.var_bayes.gaussian_moments", "GaussianMoments")

            met = set()

            def run():
                g = cls(m, v)
                return g(o) if what == "moment" else getattr(g, what)(o)

            def order():
                for k in range(-3, 20):
                    if C.decide("eq", o.p - k) is True:
                        return k

            def post(r):
                keep()
                k = order()
                if k is None or not lo <= k <= 8:
                    s.ob("orders outside are rejected", False, "order %s accepted" % k)
                    return

                def want(i):
                    e = gmoment(k, m.get(i), v.get(i))
                    if what == "dm":
                        return diff(e, atom(m.get(i)))
                    if what == "ds":
                        return diff(e, atom(v.get(i)))
                    return e
                met.add(k)
                s.arr_eq("order %d" % k, r, (n,), want)

            def rejected(e):
                # must be outside lo..8 on this path
                return isinstance(e, ValueError) and \
                    (not C.consistent([le(lo, o), le(o, 8)]))
            s.explore(run, post, rejected)
            for k in range(lo, 9):
                s.ob("order %d" % k, k in met, "the order is never accepted")
    with J.scope("GaussianMoments.shape") as s:
        w = s.world()
        n1, n2 = s.int("n1", 1), s.int("n2", 1)
        m, v = s.arr("m", n1), s.arr("v", n2)
        C.learn([("ne", poly(n1) - poly(n2))])
        cls = w.get("src.var_bayes.gaussian_moments", "GaussianMoments")
        s.explore(lambda: cls(m, v), lambda r: s.ob("different shapes rejected", False,
                                                     "arrays of different length accepted"),
                  lambda e: isinstance(e, RuntimeError))
        s.ob("different shapes rejected", True)
        s.explore(lambda: cls(s.arr("m2", n1, 1), v),
                  lambda r: s.ob("different ranks rejected", False, "accepted"),
                  lambda e: isinstance(e, RuntimeError))
        s.ob("different ranks rejected", True)
