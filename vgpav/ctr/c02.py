"""Backward sweep: every earlier point is one textbook backward step of the scheme plus the
jump, zero at the final time, arguments unchanged."""
from .base import *
from .c01 import METHODS, CLASS, comb, half, mat_ops, step


def contracts(J):
    for m in METHODS:
        for kind in ("f", "i"):
            one(J, m, True, kind)
            one(J, m, False, kind)


def one(J, m, single, kind):
    nm = "BwdOde[%s,%s%s]" % (m, "scalar" if single else "vector",
                              ", whole numbers" if kind == "i" else "")
    J.under("src.var_bayes.bwd_ode.BwdOde.__call__",
            "src.numerics.%s.%s.solve_bwd" % (METHODS[m], CLASS[m]),
            "src.numerics.ode_solver.OdeSolver.fun_lam", "src.numerics.ode_solver.OdeSolver.fun_psi")
    with J.scope(nm) as s:
        w = s.world()
        N, dt = s.int("N", 2), s.pos("dt")
        if single:
            D, dims = ONE, ((N,),) * 5
        else:
            D = s.int("D", 1)
            dims = ((N, D, D), (N, D), (N, D, D), (N, D), (N, D, D))
        a, em, es, om, os_ = [s.arr(n, *d, kind=kind) for n, d in zip(("A", "Em", "Es", "Om", "Os"), dims)]
        D = poly(D)
        keep = s.unchanged("arguments unchanged", a, em, es, om, os_)
        cls = w.get("src.var_bayes.bwd_ode", "BwdOde")

        def post(v):
            s.check("two results", isinstance(v, tuple) and len(v) == 2)
            lam, psi = v
            keep()
            mv, mm = mat_ops(D)
            G = lambda x: (lambda k, *i: x.get((P(k),) + i))
            if single:
                # backward: d lam = f, step of size -dt
                fl = lambda x, d: comb((1, lambda: mul(d[0](), x())), (-1, d[1]))
                fp = lambda x, d: comb((2, lambda: mul(d[0](), x())), (-1, d[2]))
                sh = ()
            else:
                fl = lambda x, d: comb((1, lambda i: S(D, lambda k: d[0](k, i) * x(k))), (-1, d[1]))
                fp = lambda x, d: comb((1, mm(x, d[0])),
                                       (1, lambda i, j: S(D, lambda k: d[0](k, i) * x(k, j))),
                                       (-1, d[2]))
                sh = (D,)
            s.arr_eq("number of points", lam, (N,) + sh, lambda i: lam.get(i))
            s.arr_eq("number of matrices", psi, (N,) + sh * 2, lambda i: psi.get(i))
            s.arr_eq("final lambda", lam[-1], sh, lambda i: ZERO)
            s.arr_eq("final psi", psi[-1], sh * 2, lambda i: ZERO)
            k = T.fresh("k")
            with C.binders([(k, poly(N) - 1)]):
                kp = P(k)
                at = lambda q: tuple((lambda *i, x=x: G(x)(q, *i)) for x in (a, em, es))
                dh = tuple(half(G(x), kp) for x in (a, em, es))
                X = lambda arr_: (lambda *i: arr_.get((kp + 1,) + i))
                sl = step(m, fl, X(lam), neg(poly(dt)), at(kp + 1), dh, at(kp))
                sp = step(m, fp, X(psi), neg(poly(dt)), at(kp + 1), dh, at(kp))
                s.arr_eq("lambda step", lam[Num(kp)], sh, lambda i: sl(*i) + om.get((kp,) + i))
                s.arr_eq("psi step", psi[Num(kp)], sh * 2, lambda i: sp(*i) + os_.get((kp,) + i))
        s.explore(lambda: cls(dt, m, single)(a, em, es, om, os_), post)
