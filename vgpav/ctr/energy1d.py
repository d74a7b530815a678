"""Contract of the scalar SDE energies (C04, C05): the integrand is an exact Gaussian
expectation, the gradients are its formal derivatives."""
from .base import *
from .calc import diff, gexpect, atom
from .trapz import breaks, trapz_spec, STUB


def process(s, w, mod, cls, pos_theta):
    sg0 = s.pos("sigma0")
    th0 = s.pos("theta0") if pos_theta else s.real("theta0")
    return w.get(mod, cls)(sg0, th0, 3), sg0, th0


def window(s, p, N, dt, tag=""):
    t0 = poly(s.real("t0" + tag))
    p.time_window = from_fn((poly(N),), lambda i: t0 + mul(P(i[0]), poly(dt)))


def energy(J, mod, cls, drift, pos_theta):
    nm = mod + "." + cls
    J.under(nm + ".energy", nm + ".__init__", nm + ".theta", nm + ".sigma",
            "src.dynamics.stochastic_process.StochasticProcess.time_step",
            "src.var_bayes.gaussian_moments.GaussianMoments (inlined)")
    J.trust("Stein's identity for Gaussian moments")
    for hist in ("new", "sigma and theta changed", "theta changed", "sigma changed"):
        for obs in ("none", "list", "array"):
            if hist != "new" and obs != "list":
                continue
            with J.scope("%s.energy[%s, breaks %s]" % (cls, hist, obs)) as s:
                one(s, mod, cls, drift, pos_theta, hist, obs)


def one(s, mod, cls, drift, pos_theta, hist, obs):
    w = s.world(replace=STUB)
    N = s.int("N", 2)
    dt = s.pos("dt")
    a, b, m = s.arr("a", N), s.arr("b", N), s.arr("m", N)
    v = s.arr("s", N)
    T.FAM["s@%d" % s.uid]["pos"] = True
    o = None if obs == "none" else breaks(s, "o", N, obs)[0]
    sg1 = s.pos("sigma1")
    th1 = s.pos("theta1") if pos_theta else s.real("theta1")
    N0, dt0 = s.int("N0", 2), s.pos("dt0")
    old = [s.arr(x + "0", N0) for x in "abms"]
    args = [a, b, m, v] + ([] if o is None else [o])
    keep = s.unchanged("arguments unchanged", *args)
    par = {}

    def run():
        p, sg0, th0 = process(s, w, mod, cls, pos_theta)
        if hist != "new":
            window(s, p, N0, dt0, "0")
            p.energy(*old, None)
        if "theta" in hist:
            p.theta = th1
        if "sigma" in hist:
            p.sigma = sg1
        par["sigma"] = poly(sg1 if "sigma" in hist else sg0)
        par["theta"] = poly(th1 if "theta" in hist else th0)
        window(s, p, N, dt)
        return p.energy(a, b, m, v, o)

    def post(r):
        keep()
        ok = isinstance(r, tuple) and len(r) == 3 and len(r[1]) == 2 and len(r[2]) == 4
        s.ob("results", ok, "not (energy, (E f, E f'), four gradients)")
        if not ok:
            return
        E, (Ef, Edf), (gm, gs, gt, gq) = r
        sg, th = par["sigma"], par["theta"]
        x = T.fresh("x", False)
        X, A, B = P(x), T.sym("A!"), T.sym("B!")
        M, Vv = T.sym("M!"), T.sym("V!")
        C.learn([("lt", neg(P(Vv)))])
        f = drift(X, th)
        res = f + mul(P(A), X) - P(B)
        ex = lambda e: gexpect(e, x, P(M), P(Vv))
        F = T.scale(mul(ex(mul(res, res)), T.recip(sg)), T.Q(1, 2))
        at = lambda e: (lambda k: T.subst(e, {A: a.get((P(k),)), B: b.get((P(k),)),
                                              M: m.get((P(k),)), Vv: v.get((P(k),))}))
        one_ = lambda e: (lambda i, g=at(e): g(i[0]))
        s.eq("energy is the trapezoidal integral", E, trapz_spec(at(F), N, dt))
        s.arr_eq("average drift", Ef, (N,), one_(ex(f)))
        s.arr_eq("average drift slope", Edf, (N,), one_(ex(diff(f, x))))
        s.arr_eq("gradient with respect to the mean", gm, (N,), one_(diff(F, M)))
        s.arr_eq("gradient with respect to the variance", gs, (N,), one_(diff(F, Vv)))
        s.eq("gradient with respect to theta", gt, trapz_spec(at(diff(F, atom(th))), N, dt))
        s.eq("gradient with respect to sigma", gq, trapz_spec(at(diff(F, atom(sg))), N, dt))
    s.explore(run, post)
