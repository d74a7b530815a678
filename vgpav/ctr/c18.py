"""Sample paths: each point is one Euler-Maruyama step of the model; the increments are
linear in independent standard normal draws with covariance Sigma*dt, for every length and
(Lorenz-96) every dimension."""
from .base import *
from ..eng import loops
from ..eng.prove import renorm, unfold, use_equalities, free_bracket

MODELS = {"DW": ("src.dynamics.double_well", "DoubleWell"),
          "OU": ("src.dynamics.ornstein_uhlenbeck", "OrnsteinUhlenbeck"),
          "L63": ("src.dynamics.lorenz_63", "Lorenz63"),
          "L96": ("src.dynamics.lorenz_96", "Lorenz96")}


def contracts(J):
    for m, c in MODELS.values():
        J.under("%s.%s.make_trajectory" % (m, c), "%s.%s.__init__" % (m, c))
    J.under("src.dynamics.stochastic_process.StochasticProcess.sample_path",
            "src.dynamics.stochastic_process.StochasticProcess.time_window",
            "src.dynamics.stochastic_process.StochasticProcess.time_step",
            "src.dynamics.lorenz_63.l63", "src.dynamics.lorenz_96.l96")
    J.trust("draws of numpy's Generator are independent standard normal variables")
    for mod, kinds in (("DW", ("scalar", "no seed")), ("OU", ("scalar", "mean given", "no seed")),
                       ("L63", ("full", "vector", "scalar", "no seed")),
                       ("L96", ("full", "vector", "scalar", "no seed"))):
        for kind in kinds:
            with J.scope("%s.make_trajectory[%s]" % (MODELS[mod][1], kind)) as s:
                path(s, mod, kind)
        for what in ("sample_path", "time_window", "time_step"):
            with J.scope("%s.%s before generation" % (MODELS[mod][1], what)) as s:
                early(s, mod, what)


def build(s, w, mod, kind, seed=3):
    """(process, theta getter or Num, sigma(i, j), D)."""
    cls = w.get(*MODELS[mod])
    if kind == "no seed":
        seed = None
    if mod in ("DW", "OU"):
        sg = s.pos("sig")
        th = s.real("th") if mod == "DW" else s.pos("th")
        return (lambda: cls(sg, th, seed)), th, lambda i, j: poly(sg), None
    D = P(3) if mod == "L63" else poly(s.int("D", 10))
    sc = s.pos("sc")
    if kind == "full":
        q = s.pd("sig", D, D)
        sg = lambda i, j: q.get((P(i), P(j)))
    elif kind == "vector":
        q = s.arr("sig", D)
        C.POS["sig@%d" % s.uid] = "pos"
        sg = lambda i, j: mul(delta(i, j), q.get((P(i),)))
    else:
        q = sc
        sg = lambda i, j: mul(delta(i, j), poly(sc))
    if mod == "L63":
        th = s.arr("th", 3)
        return (lambda: cls(q, th, seed)), th, sg, D
    th = s.real("th")
    return (lambda: cls(q, th, seed, Num(D))), th, sg, D


def drift(mod, th, D, x, mu):
    if mod == "DW":
        return lambda i: T.scale(mul(x(()), poly(th) - mul(x(()), x(()))), 4)
    if mod == "OU":
        return lambda i: mul(poly(th), mu - x(()))
    if mod == "L63":
        u = lambda k: th.get((P(k),))
        X = [x((P(k),)) for k in range(3)]
        f = [mul(u(0), X[1] - X[0]), mul(u(1) - X[2], X[0]) - X[1], mul(X[0], X[1]) - mul(u(2), X[2])]
        return lambda i: f[int(i[0].const())]

    def f(i):
        i = i[0]
        g = lambda k: x((T.mkfn("imod", (i + k, D)),))
        return mul(g(1) - g(-2), g(-1)) - x((i,)) + poly(th)
    return f


def noise(d):
    """d without the defined families, unfolding the last step."""
    d = renorm(d)
    for _ in range(2):
        if not any(a.a[0] in loops.DEFS for a in T.atoms_in(d, {"app"})):
            break
        e = unfold(d)
        if e is None:
            break
        d = renorm(e)
    return use_equalities(d)


def draws(d):
    return [a for a in T.atoms_in(d, {"app"}) if a.a[0].startswith("draw_")]


def parts_of(a):
    """(family with key, draw number, shape, index) of a draw."""
    r, k = [int(x) for x in a.a[0].split("_")[2:]]
    ix = a.a[1]
    return (a.a[0],) + tuple(ix[:k]), ix[k], tuple(ix[k + 1:k + 1 + r]), tuple(ix[k + 1 + r:])


def has_dums(p):
    return any(x.kind == "dum" for x in T.atoms_in(p, {"dum"}))


def heads(d):
    out = []
    for a in draws(d):
        fam, n, sh, ix = parts_of(a)
        if any(has_dums(q) for q in (n,) + sh):
            return None
        if (fam, n, sh) not in out:
            out.append((fam, n, sh))
    return out


def coefficient(d, head, at):
    """The coefficient of the draw of the head at index at in the linear form d."""
    def leaf(mark):
        def f(a):
            if a.kind == "app" and a.a[0].startswith("draw_"):
                fam, n, sh, ix = parts_of(a)
                if not mark or (fam, n, sh) != head:
                    return ZERO
                r = ONE
                for p, q in zip(ix, at):
                    r = mul(r, T.bracket("eq", p - q))
                return r
            return None
        return f
    return T.rewrite(d, leaf(True)) - T.rewrite(d, leaf(False))


def covariance(d, e):
    """Covariance of two linear forms in independent standard normal draws."""
    hd, he = heads(d), heads(e)
    if hd is None or he is None:
        V.unsupported("draws inside a sum over draws")
    tot = ZERO
    for f1, n1, s1 in hd:
        for f2, n2, s2 in he:
            if f1 != f2 or s1 != s2:
                continue
            same = T.bracket("eq", n1 - n2)
            if not same.t:
                continue
            vs = [T.fresh("k") for _ in s1]
            at = tuple(P(v) for v in vs)
            with C.binders(list(zip(vs, s1))):
                b = mul(coefficient(d, (f1, n1, s1), at), coefficient(e, (f2, n2, s2), at))
            for v, x in zip(vs[::-1], s1[::-1]):
                b = T.mksum(v, x, b)
            tot = tot + mul(same, b)
    return tot


def linear_ok(d):
    """d = sum of draws with coefficients free of draws, no constant."""
    z = P(T.fresh("z", False))
    up = T.rewrite(d, lambda a: mul(z, P(a)) if a.kind == "app" and a.a[0].startswith("draw_")
                   else None)
    return is_zero(up - mul(z, d)) and all(a.a[0].startswith("draw_normal") for a in draws(d))


def path(s, mod, kind):
    w = s.world()
    mk, th, sg, D = build(s, w, mod, kind)
    t0, dt, h = s.real("t0"), s.pos("dt"), s.pos("h")
    tf = t0 + h * dt
    mu = s.real("mu") if kind == "mean given" else None

    def run():
        p = mk()
        p.make_trajectory(t0, tf, dt, *([] if mu is None else [mu]))
        return p, p.sample_path, p.time_window, p.time_step, p.single_dim

    def post(r):
        p, x, tk, step, single = r
        s.ob("tells whether the state is scalar", single is (D is None), repr(single))
        for v in (x, tk):
            if not isinstance(v, Arr):
                s.ob("path and grid are arrays", False)
                return
        n = tk.shape[0]
        s.ob("path and grid have the same length", len(tk.shape) == 1 and is_zero(x.shape[0] - n))
        ok = len(x.shape) == (1 if D is None else 2) and (D is None or is_zero(x.shape[1] - D))
        s.ob("shape of the path", ok, [T.show(k) for k in x.shape])
        if not ok:
            return
        s.ob("grid has at least two points", C.decide("le", 2 - n) is True)
        s.arr_eq("grid starts at t0 with step dt", tk, (n,),
                 lambda i: poly(t0) + mul(i[0], poly(dt)))
        s.ob("grid covers tf", C.decide("le", poly(h) - (n - 1)) is True,
             "%s points for a window of %s steps" % (T.show(n), T.show(poly(h))))
        s.eq("time step", step, dt)
        if mod == "OU":
            s.eq("path starts at the mean", x.get((ZERO,)), ZERO if mu is None else poly(mu))
        t, t2 = T.fresh("t"), T.fresh("t")
        with C.binders([(t, n), (t2, n)]), C.assume([("le", 1 - P(t)), ("le", 1 - P(t2))]):
            ds = [()] if D is None else [(T.num(k),) for k in range(3)] if mod == "L63" else None
            cols = []
            if ds is None:
                i, j = T.fresh("i"), T.fresh("j")
                with C.binders([(i, D), (j, D)]):
                    law(s, mod, th, D, mu, x, dt, sg, P(t), P(t2), [((P(i),), (P(j),))])
            else:
                law(s, mod, th, D, mu, x, dt, sg, P(t), P(t2),
                    [(a, b) for a in ds for b in ds])
    s.explore(run, post)


def law(s, mod, th, D, mu, x, dt, sg, t, t2, pairs, depth=0):
    if not C.consistent():
        return
    memo = {}

    def inc(t, i):
        k = (t, i)
        if k not in memo:
            f = drift(mod, th, D, lambda ix: x.get((t - 1,) + ix), ZERO if mu is None else poly(mu))
            memo[k] = noise(x.get((t,) + i) - x.get((t - 1,) + i) - mul(f(i), poly(dt)))
        return memo[k]
    for u, i in ((t, pairs[0][0]), (t2, pairs[0][1])):
        b = free_bracket(inc(u, i)) if depth < 4 else None
        if b is not None:           # by cases
            for f in (b.a, V.negate(b.a)):
                with C.assume([f]):
                    law(s, mod, th, D, mu, x, dt, sg, t, t2, pairs, depth + 1)
            return
    first = x.get((ZERO,) + pairs[0][0])
    for i, j in pairs:
        e = inc(t, i)
        s.ob("point minus drift step is linear in normal draws", linear_ok(e), "it is not",
             T.show(e)[:1500])
        q = (i[0], j[0]) if i else (ZERO, ZERO)
        s.eq("covariance of an increment", covariance(e, inc(t, j)), mul(sg(*q), poly(dt))) \
            if i else s.eq("covariance of an increment", covariance(e, e), mul(sg(*q), poly(dt)))
        with C.assume([("ne", t - t2)]):
            s.eq("increments at different times are independent",
                 covariance(e, inc(t2, j)), ZERO)
        for a in draws(first):
            for b in draws(e):
                fa, na, sa, ia = parts_of(a)
                fb, nb, sb, ib = parts_of(b)
                apart = fa != fb or sa != sb or C.decide("eq", na - nb) is False or any(
                    C.decide("eq", u - v) is False for u, v in zip(ia, ib)
                    if not (has_dums(u) or has_dums(v)))
                s.ob("increments are independent of the first point", apart)


def early(s, mod, what):
    w = s.world()
    mk, *_ = build(s, w, mod, "scalar")
    s.explore(lambda: getattr(mk(), what),
              lambda r: s.ob("rejected", False, "a value is returned"),
              lambda e: isinstance(e, Exception))
    s.ob("rejected", True)
