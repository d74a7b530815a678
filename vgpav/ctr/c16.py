"""finite_diff: central differences of an arbitrary function in every coordinate."""
from .base import *

MOD = "src.numerics.utilities"
H = "1e-6"


def contracts(J):
    J.under(MOD + ".finite_diff")
    J.assume("the function is a deterministic scalar function of its arguments' contents that "
             "leaves them unchanged")
    for kind in ("vector", "one coordinate", "scalar"):
        for extra in (0, 2):
            with J.scope("finite_diff[%s, %d extra arguments]" % (kind, extra)) as s:
                one(s, kind, extra)


def value(x, ex):
    x = V.as_arr(x)
    if not x.shape:
        x = x[None]
    return V.functional("F", [x], (), ex)


def one(s, kind, extra):
    w = s.world()
    n = s.int("n", 1) if kind == "vector" else Num(ONE)
    x = s.real("x") if kind == "scalar" else s.arr("x", n)
    ex = [s.real("p%d" % k) for k in range(extra)]
    keep = s.unchanged("the point is unchanged", *([] if kind == "scalar" else [x]))
    bad = []

    def fun(z, *a):
        if len(a) != len(ex) or any(p is not q and not is_zero(poly(p) - poly(q))
                                    for p, q in zip(a, ex)):
            bad.append(a)
        return Num(value(z, [poly(q) for q in a]))

    def run():
        del bad[:]
        r = w.get(MOD, "finite_diff")(fun, x, *ex)
        return r, list(bad)

    def post(r):
        g, b = r
        keep()
        s.ob("extra arguments are passed through", not b)
        get = (lambda i: poly(x)) if kind == "scalar" else x.get
        h = P(load.Fraction(H))

        def want(i):
            at = lambda sg: value(from_fn((poly(n),), lambda j: get(j) + T.scale(
                mul(h, delta(j[0], i)), sg)), [poly(q) for q in ex])
            return mul(at(1) - at(-1), T.recip(T.scale(h, 2)))
        single = C.decide("eq", poly(n) - 1) is True
        if single:
            s.ob("one coordinate yields a scalar", V.is_scalar(g) and not (
                isinstance(g, Arr) and g.shape), "an array is returned")
            if V.is_scalar(g):
                one_ = {a: ONE for a in T.free(poly(n))}
                s.eq("central difference", T.subst(poly(g), one_), T.subst(want(ZERO), one_))
        else:
            with C.assume([("le", 2 - poly(n))]):
                s.arr_eq("central difference", g, (n,), lambda i: want(i[0]))
    s.explore(run, post)
