"""Gradient of the Lagrangian at the evaluated vector."""
from .base import *
from .vgp import Parts, freeze, same
from .c11 import before

CLS = "src.var_bayes.variational.VarGP"


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".gradient", CLS + "._grad_at", CLS + "._dEsde_da",
            CLS + "._dEsde_db", CLS + ".free_energy", CLS + ".arg_out")
    for single in (True, False):
        for hist in ("new", "any state", "other vector evaluated", "same vector evaluated",
                     "same, then other vector evaluated"):
            for how in ("after evaluation", "asked to evaluate"):
                with J.scope("VarGP.gradient[%s, %s, %s]" % (
                        "scalar" if single else "vector", hist, how)) as s:
                    one(s, single, hist, how)


def one(s, single, hist, how):
    w = s.world()
    parts = Parts(s, single)
    x, A, b = parts.x("x")
    x1, _, _ = parts.x("x1")
    keep = s.unchanged("vector and data unchanged", x, x1, parts.obs_y, parts.obs_t,
                       *([] if single else [parts.m0, parts.s0, parts.model.sigma,
                                            parts.model.inverse_sigma]))

    def run():
        vg = parts.make(w)
        before(parts, vg, hist, x, x1)
        if how == "after evaluation":
            vg.free_energy(x)
            g = vg.gradient(x)
        else:
            g = vg.gradient(x, eval_fun=True)
        return vg, g

    def post(t):
        vg, g = t
        keep()
        _, o = parts.spec(A, b)
        N, D, dt = poly(parts.N), parts.D, poly(parts.model.time_step)
        parts.published("after the gradient", vg, o)
        iS = parts.model.inverse_sigma
        if single:
            at = lambda n, k: o[n].get((P(k),))
            q = lambda k: mul(poly(iS), b.get((k,)) - mul(A.get((k,)), at("mt", k)) - at("Efx", k))
            ga = lambda k: mul(dt, mul(mul(poly(iS), at("Edf", k) + A.get((k,))), at("st", k))
                               - mul(q(k), at("mt", k)) - mul(at("lamt", k), at("mt", k))
                               - T.scale(mul(at("psit", k), at("st", k)), 2))
            gb = lambda k: mul(dt, q(k) + at("lamt", k))
            s.arr_eq("gradient", g, (N + N,), lambda i: split(i[0], N, ga, gb))
            return
        D = poly(D)
        tot = mul(N, mul(D, D))
        g = V.as_arr(g)
        ok = len(g.shape) == 1 and is_zero(g.shape[0] - tot - mul(N, D))
        s.ob("length of the gradient", ok, "shape %s" % [T.show(x) for x in g.shape])
        if not ok:
            return
        at = lambda n, *k: o[n].get(tuple(P(i) for i in k))
        q = lambda k, i: S(D, lambda j: mul(iS.get((P(i), P(j))), b.get((P(k), P(j)))
                           - S(D, lambda l: mul(A.get((P(k), P(j), P(l))), at("mt", k, l)))
                           - at("Efx", k, j)))
        ga = lambda k, i, j: mul(dt, S2(D, D, lambda u, v: mul(mul(
            iS.get((P(i), P(u))), at("Edf", k, u, v) + A.get((P(k), P(u), P(v)))),
            at("st", k, v, j))) - mul(q(k, i), at("mt", k, j)) - mul(at("lamt", k, i), at("mt", k, j))
            - T.scale(S(D, lambda u: mul(at("psit", k, i, u), at("st", k, u, j))), 2))
        gb = lambda k, i: mul(dt, q(k, i) + at("lamt", k, i))
        s.arr_eq("gradient for A(t)", from_fn((N, D, D), lambda i: g.get(
            (mul(mul(i[0], D), D) + mul(i[1], D) + i[2],))), (N, D, D), lambda i: ga(*i))
        s.arr_eq("gradient for b(t)", from_fn((N, D), lambda i: g.get(
            (tot + mul(i[0], D) + i[1],))), (N, D), lambda i: gb(*i))
    s.explore(run, post)


def split(k, N, ga, gb):
    c = T.bracket("lt", k - N)
    with C.assume([("lt", k - N)]):
        x = ga(k)
    with C.assume([("le", N - k)]):
        y = gb(k - N)
    return mul(c, x) + mul(ONE - c, y)
