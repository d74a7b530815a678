"""Forward sweep: every step is one textbook step of the scheme (loop invariant of
solve_fwd), first point given, arguments unchanged."""
from .base import *

METHODS = {"euler": "euler", "heun": "heun", "rk2": "runge_kutta2", "rk4": "runge_kutta4"}
CLASS = {"euler": "Euler", "heun": "Heun", "rk2": "RungeKutta2", "rk4": "RungeKutta4"}


def mat_ops(D):
    """Vector and matrix helpers on getters."""
    def mv(A, x):
        return lambda i: S(D, lambda k: A(i, k) * x(k))

    def mm(A, B):
        return lambda i, j: S(D, lambda k: A(i, k) * B(k, j))
    return mv, mm


def half(f, k):
    return lambda *i: T.scale(f(k, *i) + f(k + 1, *i), T.Q(1, 2))


def comb(*cs):
    """Linear combination of functions: comb((c, f), ...)"""
    def f(*i):
        r = ZERO
        for c, g in cs:
            r = r + mul(P(c), g(*i))
        return r
    return f


def step(method, f, x, dt, at0, ath, at1):
    """One textbook step: x' = f(x, data) with the data at the step's start, middle, end."""
    h = T.scale(dt, T.Q(1, 2))
    if method == "euler":
        return comb((ONE, x), (dt, f(x, at0)))
    if method == "heun":
        k1 = f(x, at0)
        k2 = f(comb((ONE, x), (dt, k1)), at1)
        return comb((ONE, x), (h, k1), (h, k2))
    if method == "rk2":
        k1 = f(x, at0)
        k2 = f(comb((ONE, x), (h, k1)), ath)
        return comb((ONE, x), (dt, k2))
    k1 = f(x, at0)
    k2 = f(comb((ONE, x), (h, k1)), ath)
    k3 = f(comb((ONE, x), (h, k2)), ath)
    k4 = f(comb((ONE, x), (dt, k3)), at1)
    s = T.scale(dt, T.Q(1, 6))
    return comb((ONE, x), (s, k1), (s * 2, k2), (s * 2, k3), (s, k4))


def tab(*shape):
    """A getter evaluated once at generic indices and then by substitution."""
    return lambda f: f


def contracts(J):
    import time
    for m in METHODS:
        for kind in ("f", "i"):
            one(J, m, True, kind)
            one(J, m, False, kind)
    J.trust("the fixed-dimension scope of FwdOde is inlined into the solvers it selects")


def one(J, m, single, kind):
    nm = "FwdOde[%s,%s%s]" % (m, "scalar" if single else "vector",
                              ", whole numbers" if kind == "i" else "")
    J.under("src.var_bayes.fwd_ode.FwdOde.__call__",
            "src.numerics.%s.%s.solve_fwd" % (METHODS[m], CLASS[m]),
            "src.numerics.ode_solver.OdeSolver.fun_mt", "src.numerics.ode_solver.OdeSolver.fun_st")
    with J.scope(nm) as s:
        w = s.world()
        N = s.int("N", 2)
        dt = s.pos("dt")
        if single:
            a, b = s.arr("A", N, kind=kind), s.arr("B", N, kind=kind)
            m0, s0, sg = s.real("m0"), s.pos("s0"), s.pos("sig")
            D = ONE
        else:
            D = s.int("D", 1)
            a, b = s.arr("A", N, D, D, kind=kind), s.arr("B", N, D, kind=kind)
            m0, s0, sg = s.arr("m0", D), s.pd("s0", D, D), s.pd("sig", D, D)
            D = poly(D)
        args = [x for x in (a, b, m0, s0, sg) if isinstance(x, Arr)]
        keep = s.unchanged("arguments unchanged", *args)
        cls = w.get("src.var_bayes.fwd_ode", "FwdOde")

        def run():
            return cls(dt, m, single)(a, b, m0, s0, sg)

        def post(v):
            s.check("two results", isinstance(v, tuple) and len(v) == 2)
            mt, st = v
            keep()
            mv, mm = mat_ops(D)
            A = (lambda k, *i: a.get((P(k),) + i))
            B = (lambda k, *i: b.get((P(k),) + i))
            sgf = (lambda *i: sg.get(i)) if not single else (lambda: poly(sg))
            Mf = lambda k: (lambda *i: mt.get((P(k),) + i))
            Sf = lambda k: (lambda *i: st.get((P(k),) + i))
            if single:
                fm = lambda x, d: comb((-1, lambda: mul(d[0](), x())), (1, d[1]))
                fs = lambda x, d: comb((-2, lambda: mul(d[0](), x())), (1, sgf))
                shape = ()
            else:
                fm = lambda x, d: comb((-1, mv(d[0], x)), (1, d[1]))
                fs = lambda x, d: comb((-1, mm(d[0], x)),
                                       (-1, lambda i, j: S(D, lambda k: x(i, k) * d[0](j, k))),
                                       (1, sgf))
                shape = (D,)
            s.arr_eq("first mean", mt[0], shape, lambda i: m0.get(i) if shape else poly(m0))
            s.arr_eq("first covariance", st[0], shape * 2,
                     lambda i: s0.get(i) if shape else poly(s0))
            s.arr_eq("number of points", mt, (N,) + shape, lambda i: mt.get(i))
            s.arr_eq("number of covariances", st, (N,) + shape * 2, lambda i: st.get(i))
            k = T.fresh("k")
            with C.binders([(k, poly(N) - 1)]):
                kp = P(k)
                d0 = (lambda *i: A(kp, *i), lambda *i: B(kp, *i))
                d1 = (lambda *i: A(kp + 1, *i), lambda *i: B(kp + 1, *i))
                dh = (half(A, kp), half(B, kp))
                sm = step(m, fm, Mf(kp), poly(dt), d0, dh, d1)
                ss = step(m, fs, Sf(kp), poly(dt), d0, dh, d1)
                s.arr_eq("mean step", mt[Num(kp + 1)], shape, lambda i: sm(*i))
                s.arr_eq("covariance step", st[Num(kp + 1)], shape * 2, lambda i: ss(*i))
        s.explore(run, post)
