"""Observation sampling: number, order and range of the times, values, noise law, frame;
for every window, density, dimension, mask."""
from .base import *
from .c18 import covariance, linear_ok, noise
from .trapz import breaks

CLS = "src.dynamics.stochastic_process.StochasticProcess"


def contracts(J):
    J.under(CLS + ".collect_obs", CLS + ".__init__")
    J.trust("draws of numpy's Generator are independent standard normal variables",
            "np.linspace(.., dtype=int) truncates the exact quotient")
    J.assume("the time grid is equidistant (C18); at least one observation results")
    for mask, noises in (("scalar state", ("scalar",)), ("none", ("scalar", "vector", "matrix")),
                         ("index list", ("scalar", "vector")), ("index array", ("scalar", "matrix")),
                         ("boolean array", ("scalar",))):
        for nk in noises:
            with J.scope("collect_obs[mask: %s, noise: %s]" % (mask, nk)) as s:
                one(s, mask, nk)
    for what in ("nothing", "window only", "path only"):
        with J.scope("collect_obs[%s generated]" % what) as s:
            missing(s, what)


def process(s, w, mask, seed=3):
    single = mask == "scalar state"
    N, dt = s.int("N", 2), s.pos("dt")
    t0 = poly(s.real("t0"))
    tk = from_fn((poly(N),), lambda i: t0 + mul(i[0], poly(dt)))
    D = None if single else s.int("D", 1)
    x = s.arr("x", N) if single else s.arr("x", N, D)
    cls = w.get("src.dynamics.stochastic_process", "StochasticProcess")

    def make():
        p = cls(seed, single)
        p.time_window, p.sample_path = tk, x
        return p
    return make, N, dt, D, x, tk


def sampling(s, N, dt, q):
    """Facts about the density q on a window; the number of observations."""
    n, h, d = poly(N), poly(dt), poly(q)
    s.lemma("h > 0 and q <= 1/h imply q*h <= 1", [d, h],
            lambda q, h: [("lt", neg(h)), ("le", q - T.recip(h))], lambda q, h: ("le", mul(q, h) - 1))
    s.lemma("n >= 1 and q*h <= 1 imply (n-1)*q*h <= n-1", [n, d, h],
            lambda n, q, h: [("le", 1 - n), ("le", mul(q, h) - 1)],
            lambda n, q, h: ("le", mul(n - 1, mul(q, h)) - (n - 1)))
    window = mul(n - 1, h)
    M = T.mkfn("floor", (mul(window, d),))
    s.learn(("le", 1 - M))
    return M


def one(s, mask, nk):
    w = s.world()
    make, N, dt, D, x, tk = process(s, w, mask)
    q = s.int("density", 1)
    M = sampling(s, N, dt, q)
    n, d, inv = poly(N), poly(q), T.recip(poly(dt))
    O, mk, pos = D, None, (lambda i: i)
    if mask in ("index list", "index array"):
        mk, O, fam = breaks(s, "mask", D, "list" if mask == "index list" else "array", 1)
        pos = lambda i: T.app(fam, (i,))
    elif mask == "boolean array":
        mk = s.arr("mask", D, kind="b")
        T.FAM["mask@%d" % s.uid]["isint"] = True
        from ..eng.shim import mask_positions
        mp = mask_positions(mk, poly(D))
        O, pos = Num(mp.shape[0]), lambda i: mp.get((i,))
    if nk == "scalar":
        r = s.pos("r")
        var = lambda i: poly(r)
    elif nk == "vector":
        r = s.arr("r", O)
        C.POS["r@%d" % s.uid] = "pos"
        var = lambda i: r.get((i,))
    else:
        r = s.arr("r", O, O)
        C.POS["r@%d" % s.uid] = lambda a: "pos" if a.a[1][0] is a.a[1][1] else None
        var = lambda i: r.get((i, i))
    keep = s.unchanged("path, window and arguments unchanged", x, tk,
                       *[z for z in (mk, r) if isinstance(z, (Arr, SList))])

    def run():
        p = make()
        try:
            return p, p.collect_obs(q, r, mk), None
        except ValueError as e:
            return p, None, e

    def post(res):
        p, out, err = res
        keep()
        s.ob("the process keeps its path and window", p.sample_path is x and p.time_window is tk)
        high = ("lt", T.mkfn("floor", (inv,)) - d)
        if err is not None:
            s.ob("a density up to the sampling rate is accepted", C.decide(*high) is True,
                 "%s: %s" % (type(err).__name__, err))
            return
        s.ob("a density above the sampling rate is rejected",
             C.decide("le", d - T.mkfn("floor", (inv,))) is True, "accepted")
        t, y, R = out
        from ..eng import npshim
        t, y = npshim.arr(t), V.as_arr(y)
        s.ob("number of times", len(t.shape) == 1 and is_zero(t.shape[0] - M), [
            T.show(z) for z in t.shape])
        k = T.fresh("k")
        with C.binders([(k, M)]):
            tt = t.get((P(k),))
            s.ob("times are whole numbers", T.isint(tt))
            s.ob("times are inside the window", C.decide("le", neg(tt)) is True and
                 C.decide("lt", tt - n) is True, T.show(tt))
        with C.binders([(k, M - 1)]):
            s.ob("times are strictly increasing",
                 C.decide("lt", t.get((P(k),)) - t.get((P(k) + 1,))) is True)
        shape = (M,) if O is None else (M, poly(O))
        ok = len(y.shape) == len(shape) and all(is_zero(a - b) for a, b in zip(y.shape, shape))
        s.ob("shape of the observations", ok, [T.show(z) for z in y.shape])
        if not ok:
            return
        if O is None:
            s.eq("reported noise", R, poly(r))
        else:
            s.arr_eq("reported noise", R, (O, O), lambda i: mul(delta(i[0], i[1]), var(i[0])))
        k2, i, j = T.fresh("k"), T.fresh("i"), T.fresh("j")
        with C.binders([(k, M), (k2, M)] + ([] if O is None else [(i, poly(O)), (j, poly(O))])):
            def e(k, i):
                if O is None:
                    return noise(y.get((P(k),)) - x.get((t.get((P(k),)),)))
                return noise(y.get((P(k), P(i))) - x.get((t.get((P(k),)), pos(P(i)))))
            a, b = e(k, i), e(k2, j)
            s.ob("values are the path plus a linear form in normal draws", linear_ok(a),
                 "they are not", T.show(a)[:1500])
            both = delta(k, k2) if O is None else mul(delta(k, k2), delta(i, j))
            s.eq("covariance of the observation noise", covariance(a, b),
                 mul(both, poly(r) if O is None else var(P(i))))
    s.explore(run, post)


def missing(s, what):
    w = s.world()
    make, N, dt, D, x, tk = process(s, w, "scalar state")
    cls = w.get("src.dynamics.stochastic_process", "StochasticProcess")

    def run():
        p = cls(3, True)
        if what == "window only":
            p.time_window = tk
        if what == "path only":
            p.sample_path = x
        return p.collect_obs(s.int("q", 1), s.pos("r"))
    s.explore(run, lambda r: s.ob("rejected", False, "accepted"), lambda e: isinstance(e, Exception))
    s.ob("rejected", True)
