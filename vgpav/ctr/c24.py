"""Initial parameters: the spline receives exactly the observations with their end points,
and the vector is what the property says, for every window and every set of observations."""
from .base import *
from .trapz import breaks
from .vgp import Parts

CLS = "src.var_bayes.variational.VarGP"


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".initialization")
    J.trust("scipy's CubicSpline (default conditions) interpolates strictly increasing nodes")
    for single in (True, False):
        for first in ("at the start", "after the start"):
            for last in ("at the end", "before the end"):
                for kind in ("list", "array"):
                    with J.scope("initialization[%s, first %s, last %s, times in a%s]" % (
                            "scalar" if single else "vector", first, last,
                            "n array" if kind == "array" else " list")) as s:
                        one(s, single, first == "at the start", last == "at the end", kind)


class Spline:
    """scipy.interpolate.CubicSpline as a contract with this property's precondition."""

    def __init__(self, s, nodes, tk, count):
        self.s, self.nodes, self.made, self.tk, self.count = s, nodes, 0, tk, count

    def __call__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        s, (L, node, value, dims) = self.s, self.nodes
        x, y = V.as_arr(x), V.as_arr(y)
        s.ob("spline options", bc_type == "not-a-knot" and V.is_scalar(axis) and
             is_zero(poly(axis)), "axis %s, %s" % (axis, bc_type))
        s.ob("spline nodes strictly increase", self.increasing())
        s.arr_eq("spline nodes", x, (L,), lambda i: node(i[0]))
        s.arr_eq("spline values", y, (L,) + dims, lambda i: value(i[0], i[1:]))
        return Interpolant(self, dims)

    def increasing(self):
        """The specified nodes do, for any step: the positions in the window do."""
        L, K, f, at, n = self.count
        k = T.fresh("k")
        pos = lambda i: pick(i, f, K, ZERO, at(P(i) - f), n - 1)
        with C.binders([(k, L - 1)]):
            if f and C.decide("lt", pos(ZERO) - pos(ONE)) is not True:
                return False
            for case in ([("le", f - P(k)), ("lt", P(k) + 1 - f - K)],
                         [("le", f + K - P(k) - 1)]):
                with C.assume(case):
                    if C.consistent() and C.decide("lt", pos(P(k)) - pos(P(k) + 1)) is not True:
                        return False
        return True


class Interpolant:
    def __init__(self, of, dims):
        self.of, self.dims = of, dims

    def __call__(self, t, nu=0, extrapolate=None):
        if not (V.is_scalar(nu) and is_zero(poly(nu))):
            V.unsupported("derivative of the spline")
        name = "mt@%d" % self.of.s.uid
        if V.is_scalar(t):
            if self.dims:
                return from_fn(self.dims, lambda i: T.app(name, (poly(t),) + tuple(i)))
            return Num(T.app(name, (poly(t),)))
        t = V.as_arr(t)
        if len(t.shape) != 1:
            V.unsupported("spline at an array with %d axes" % len(t.shape))
        g = t.snap()
        return from_fn(t.shape + self.dims, lambda i: T.app(name, (g((i[0],)),) + tuple(i[1:])))


def one(s, single, first, last, kind):
    parts = Parts(s, single)
    N, D, dt = poly(parts.N), parts.D, poly(parts.model.time_step)
    o, K, fam = breaks(s, "t", parts.N, kind, 1)
    K = poly(K)
    at = lambda k: T.app(fam, (P(k),))
    s.learn(("eq", at(0)) if first else ("le", 1 - at(0)),
            ("eq", at(K - 1) - N + 1) if last else ("le", at(K - 1) - N + 2))
    if first and last:
        s.learn(("le", 2 - K))
    t0 = poly(s.real("t0"))
    tk = from_fn((N,), lambda i: t0 + mul(i[0], dt))
    parts.model.time_window = tk
    dims = () if single else (poly(D),)
    y = s.arr("obs", K, *dims)
    parts.obs_t, parts.obs_y = o, y
    f, l = (0 if first else 1), (0 if last else 1)
    L = K + f + l

    def node(i):
        r = mul(clip(i, f, K), ONE)
        inner = t0 + mul(at(r), dt)
        return pick(i, f, K, t0, inner, t0 + mul(N - 1, dt))

    def value(i, j):
        return pick(i, f, K, y.get((ZERO,) + tuple(j)), y.get((clip(i, f, K),) + tuple(j)),
                    y.get((K - 1,) + tuple(j)))

    spl = Spline(s, (L, node, value, dims), tk, (L, K, f, at, N))
    w = s.world(ext={"scipy.interpolate": load.N.Namespace("scipy.interpolate",
                                                           dict(CubicSpline=spl))})
    keep = s.unchanged("arguments unchanged", y, tk, *([o] if kind == "array" else [o]),
                       *([] if single else [parts.model.sigma]))
    sg = parts.model.sigma

    def run():
        return parts.make(w).initialization()

    def post(x):
        keep()
        mt = lambda k, *i: T.app("mt@%d" % s.uid, (t0 + mul(P(k), dt),) + tuple(P(z) for z in i))
        x = V.as_arr(x)
        if single:
            s.arr_eq("initial parameters", x, (N + N,), lambda i: cases(
                i[0], N, lambda k: T.scale(poly(sg), 2), lambda k: mt(k)))
            return
        d = poly(D)
        tot = mul(N, mul(d, d))
        ok = len(x.shape) == 1 and is_zero(x.shape[0] - tot - mul(N, d))
        s.ob("length of the vector", ok, "shape %s" % [T.show(z) for z in x.shape])
        if not ok:
            return
        s.arr_eq("A(t)", from_fn((N, d, d), lambda i: x.get(
            (mul(mul(i[0], d), d) + mul(i[1], d) + i[2],))), (N, d, d),
            lambda i: T.scale(mul(delta(i[1], i[2]), sg.get((i[1], i[1]))), 2))
        b = from_fn((N, d), lambda i: x.get((tot + mul(i[0], d) + i[1],)))
        am = lambda k, i: T.scale(mul(sg.get((i, i)), mt(k, i)), 2)
        s.arr_eq("b(t) before the last point", from_fn((N - 1, d), lambda i: b.get(i)), (N - 1, d),
                 lambda i: mul(mt(i[0] + 1, i[1]) - mt(i[0], i[1]), T.recip(dt)) + am(i[0], i[1]))
        s.arr_eq("b(t) at the last point", from_fn((d,), lambda i: b.get((N - 1, i[0]))), (d,),
                 lambda i: am(N - 1, i[0]))
    s.explore(run, post)
    s.ob("a spline through the observations is built", True)


def clip(i, f, K):
    return P(i) - f


def pick(i, f, K, a, inner, z):
    """a before position f, inner for the K next ones, z after them."""
    lo = T.bracket("lt", P(i) - f)
    hi = T.bracket("le", f + K - P(i))
    return mul(lo, a) + mul(hi, z) + mul(ONE - lo - hi, inner)


def cases(k, N, ga, gb):
    c = T.bracket("lt", k - N)
    with C.assume([("lt", k - N)]):
        x = ga(k)
    with C.assume([("le", N - k)]):
        y = gb(k - N)
    return mul(c, x) + mul(ONE - c, y)
