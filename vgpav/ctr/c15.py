"""chol_inv, log_det, safe_log for every size and every value."""
from .base import *

MOD = "src.numerics.utilities"
LO, HI = "1e-300", "1e300"


def contracts(J):
    J.under(*[MOD + "." + f for f in ("chol_inv", "chol_inv_fast", "log_det", "safe_log")])
    J.trust("laws of the Cholesky factor: L lower triangular, positive diagonal, L L^T = A, "
            "exists exactly for positive-definite A; sum log L_ii = 1/2 log det A")
    J.assume("matrices are symmetric")
    fns = {}
    with J.scope("chol_inv[positive scalar]") as s:
        w = s.world()
        x = s.pos("x")

        def post(r):
            s.eq("inverse", r[0] * x, Num(ONE))
            s.eq("factor", r[1] * r[1], r[0])
        s.explore(lambda: w.get(MOD, "chol_inv")(x), post)
    for name in ("chol_inv", "chol_inv_fast"):
        with J.scope(name + "[positive-definite matrix]") as s:
            w = s.world()
            n = s.int("n", 1)
            a = s.pd("a", n, n)
            keep = s.unchanged("argument unchanged", a)
            s.explore(lambda: w.get(MOD, name)(a), lambda r: (keep(), inverse(s, n, a, r)))
        with J.scope(name + "[any symmetric matrix]") as s:
            rejects(s, name)
    with J.scope("log_det[positive-definite matrix]") as s:
        w = s.world()
        n = s.int("n", 1)
        a = s.pd("a", n, n)
        keep = s.unchanged("argument unchanged", a)
        ss, body = L.generic(a)
        s.explore(lambda: w.get(MOD, "log_det")(a), lambda r: (keep(), s.eq(
            "logarithm of the determinant", r, T.mkfun("logdet", a.shape, ss, (body,), ()))))
    with J.scope("log_det[any symmetric matrix]") as s:
        rejects(s, "log_det")
    with J.scope("log_det[vector]") as s:
        w = s.world()
        n = s.int("n", 1)
        v = s.arr("v", n)
        C.POS["v@%d" % s.uid] = "pos"
        s.explore(lambda: w.get(MOD, "log_det")(v), lambda r: s.eq(
            "diagonal matrix", r, S(n, lambda i: T.mkfn("log", (v.get((P(i),)),)))))
    with J.scope("log_det[positive scalar]") as s:
        w = s.world()
        x = s.pos("x")
        s.explore(lambda: w.get(MOD, "log_det")(x),
                  lambda r: s.eq("logarithm", r, T.mkfn("log", (poly(x),))))
    with J.scope("log_det[not square]") as s:
        w = s.world()
        n, m = s.int("n", 1), s.int("m", 1)
        s.learn(("ne", poly(n) - poly(m)))
        a = s.arr("a", n, m)
        s.explore(lambda: w.get(MOD, "log_det")(a), lambda r: s.ob("rejected", False, "accepted"),
                  lambda e: isinstance(e, Exception))
        s.ob("rejected", True)
    lo, hi = P(load.Fraction(LO)), P(load.Fraction(HI))
    for shape in ("scalar", "vector", "matrix"):
        with J.scope("safe_log[%s]" % shape) as s:
            w = s.world()
            n, m = s.int("n", 1), s.int("m", 1)
            if shape == "scalar":
                x = s.real("x")
            else:
                x = s.arr("x", *([n] if shape == "vector" else [n, m]))
            keep = s.unchanged("argument unchanged", *([] if shape == "scalar" else [x]))

            def post(r):
                keep()
                get = (lambda i: poly(x)) if shape == "scalar" else x.get
                sh = () if shape == "scalar" else x.shape
                for nm, fs, want in (
                        ("inside the bounds", lambda e: [("le", lo - e), ("le", e - hi)],
                         lambda e: T.mkfn("log", (e,))),
                        ("below", lambda e: [("lt", e - lo)], lambda e: T.mkfn("log", (lo,))),
                        ("above", lambda e: [("lt", hi - e)], lambda e: T.mkfn("log", (hi,)))):
                    if shape == "scalar":
                        with C.assume(fs(poly(x))):
                            s.eq(nm, r, want(poly(x)))
                    else:
                        s.arr_eq(nm, r, sh, lambda i: want(get(i)), idx_facts=lambda i: fs(get(i)))
            s.explore(lambda: w.get(MOD, "safe_log")(x), post)


def inverse(s, n, a, r):
    X, c = r
    s.arr_eq("inverse times matrix is the identity", V.dot(X, a), (n, n),
             lambda i: delta(i[0], i[1]))
    s.arr_eq("inverse is C^T C", X, (n, n), lambda i: S(n, lambda k: mul(
        c.get((P(k), i[0])), c.get((P(k), i[1])))))


def rejects(s, name):
    """Returns exactly when the matrix is positive definite."""
    w = s.world()
    n = s.int("n", 1)
    a = s.arr("a", n, n, sym=(0, 1))

    def run():
        try:
            w.get(MOD, name)(a)
        except Exception as e:
            return e, bool(L.pd_cond(a))
        return None, bool(L.pd_cond(a))

    def post(r):
        e, pd = r
        if e is None:
            s.ob("a matrix that is not positive definite is rejected", pd, "accepted")
        else:
            s.ob("a positive-definite matrix is accepted", not pd,
                 "%s: %s" % (type(e).__name__, e))
    s.explore(run, post)
