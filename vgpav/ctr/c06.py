"""Lorenz-63 SDE energy: multivariate Gaussian expectations by Stein's recursion, the
gradients are their formal derivatives."""
from .base import *
from .calc import diff, mgexpect, atom
from .energy1d import window
from .trapz import breaks, trapz_spec, STUB

CLS = "src.dynamics.lorenz_63.Lorenz63"


def contracts(J):
    J.under(CLS + ".energy", CLS + ".energy_dm_ds", CLS + ".Efg_drift_theta",
            CLS + ".__init__", CLS + ".theta", CLS + ".sigma",
            "src.dynamics.stochastic_process.StochasticProcess.time_step",
            "src.numerics.utilities.chol_inv (inlined)")
    J.trust("Stein's identity for multivariate Gaussian moments")
    J.assume("the noise matrix is diagonal (the property says so)")
    for obs in ("none", "list", "array"):
        for hist in ("new", "changed", "theta changed", "sigma changed"):
            if hist != "new" and obs != "list":
                continue
            with J.scope("Lorenz63.energy[%s, breaks %s]" % (hist, obs)) as s:
                one(s, hist, obs, {"none": 0, "list": 1, "array": 2}[obs])


def one(s, hist, obs, nd):
    w = s.world(replace=STUB)
    N, dt = s.int("N", 2), s.pos("dt")
    a, b, m = s.arr("a", N, 3, 3), s.arr("b", N, 3), s.arr("m", N, 3)
    v = s.arr("s", N, 3, 3, sym=(1, 2))
    o = None if obs == "none" else breaks(s, "o", N, obs)[0]
    sg = [s.arr("q%d" % k, 3) for k in range(2)]
    for k in range(2):
        T.FAM["q%d@%d" % (k, s.uid)]["pos"] = True
        C.POS["q%d@%d" % (k, s.uid)] = "pos"
    th = [s.arr("th%d" % k, 3) for k in range(2)]
    diag = lambda q: from_fn((P(3), P(3)), lambda i: mul(delta(i[0], i[1]), q.get((i[0],))))
    sc = s.pos("sc")
    q0 = [sc, sg[0], diag(sg[0])][nd]
    N0, dt0 = s.int("N0", 2), s.pos("dt0")
    old = [s.arr("a0", N0, 3, 3), s.arr("b0", N0, 3), s.arr("m0", N0, 3),
           s.arr("s0", N0, 3, 3, sym=(1, 2))]
    keep = s.unchanged("arguments unchanged", *[x for x in (a, b, m, v, o) if x is not None])
    par = {}

    def run():
        p = w.get("src.dynamics.lorenz_63", "Lorenz63")(q0, th[0], 3)
        par["q"] = (lambda i: poly(sc)) if nd == 0 else (lambda i: sg[0].get((P(i),)))
        par["t"] = lambda i: th[0].get((P(i),))
        if hist != "new":
            window(s, p, N0, dt0, "0")
            p.energy(*old, None)
        if hist in ("changed", "theta changed"):
            p.theta = th[1]
            par["t"] = lambda i: th[1].get((P(i),))
        if hist in ("changed", "sigma changed"):
            p.sigma = diag(sg[1])
            par["q"] = lambda i: sg[1].get((P(i),))
        window(s, p, N, dt)
        return p.energy(a, b, m, v, o)

    def post(r):
        keep()
        ok = isinstance(r, tuple) and len(r) == 3 and len(r[1]) == 2 and len(r[2]) == 4
        s.ob("results", ok, "not (energy, (E f, E df), four gradients)")
        if not ok:
            return
        E, (Ef, Edf), (gm, gs, gt, gq) = r
        q, u = [par["q"](i) for i in range(3)], [par["t"](i) for i in range(3)]
        xs = [T.fresh("x", False) for _ in range(3)]
        X = [P(x) for x in xs]
        A = [[T.fresh("A", False) for _ in range(3)] for _ in range(3)]
        B = [T.fresh("B", False) for _ in range(3)]
        M = [T.fresh("M", False) for _ in range(3)]
        Sg = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(i, 3):
                Sg[i][j] = Sg[j][i] = T.fresh("S", False)
        f = [mul(u[0], X[1] - X[0]), mul(u[1] - X[2], X[0]) - X[1], mul(X[0], X[1]) - mul(u[2], X[2])]
        res = [f[i] + T.addall([mul(P(A[i][j]), X[j]) for j in range(3)]) - P(B[i])
               for i in range(3)]
        ex = lambda e: mgexpect(e, xs, lambda i: P(M[i]), lambda i, j: P(Sg[i][j]))
        sq = [ex(mul(e, e)) for e in res]
        F = T.scale(T.addall([mul(sq[i], T.recip(q[i])) for i in range(3)]), T.Q(1, 2))

        def at(e):
            def g(k):
                k = P(k)
                mp = {}
                for i in range(3):
                    mp[B[i]], mp[M[i]] = b.get((k, P(i))), m.get((k, P(i)))
                    for j in range(3):
                        mp[A[i][j]] = a.get((k, P(i), P(j)))
                        mp[Sg[i][j]] = v.get((k, P(i), P(j)))
                return T.subst(e, mp)
            return g
        c = lambda p: int(p.const())
        s.eq("energy is the trapezoidal integral", E, trapz_spec(at(F), N, dt))
        s.arr_eq("average drift", Ef, (N, 3), lambda i: at(ex(f[c(i[1])]))(i[0]))
        s.arr_eq("average Jacobian", Edf, (N, 3, 3),
                 lambda i: at(ex(diff(f[c(i[1])], xs[c(i[2])])))(i[0]))
        s.arr_eq("gradient with respect to the mean", gm, (N, 3),
                 lambda i: at(diff(F, M[c(i[1])]))(i[0]))
        s.arr_eq("gradient with respect to the covariance", gs, (N, 3, 3), lambda i: T.scale(
            at(diff(F, Sg[c(i[1])][c(i[2])]))(i[0]), 1 if i[1] is i[2] else T.Q(1, 2)))
        s.arr_eq("gradient with respect to theta", gt, (3,),
                 lambda i: trapz_spec(at(diff(F, atom(u[c(i[0])]))), N, dt))
        dq = lambda i: trapz_spec(at(T.scale(mul(sq[i], power2(q[i])), T.Q(-1, 2))), N, dt)
        g2 = V.as_arr(gq)
        g = from_fn((P(3),), lambda i: g2.get((i[0],) * len(g2.shape)))
        s.arr_eq("gradient with respect to the noise", g, (3,), lambda i: dq(c(i[0])))
    s.explore(run, post)


def power2(q):
    return mul(T.recip(q), T.recip(q))
