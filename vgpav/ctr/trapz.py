"""Contract of my_trapz, used in place of its body when callers are verified (the body is
verified against it under C14), and the break lists it takes."""
from .base import *


def breaks(s, name, N, kind="list", lo=0, ordered=True):
    """List of indices in [0, N) of symbolic length, strictly increasing or only distinct."""
    K = s.int("n_" + name, lo)
    fam = "%s@%d" % (name, s.uid)
    n = poly(N)
    inside = lambda idx: [("lt", idx[0]), ("le", poly(K) - idx[0])]
    T.FAM[fam] = {"isint": True, "inj" if ordered else "one": True, "facts": lambda idx, a: [
        ("or", inside(idx) + [("le", neg(a))]), ("or", inside(idx) + [("le", a - n + 1)])]}
    if kind == "list":
        r = SList()
        r._set([Seq(poly(K), lambda j: Num(T.app(fam, (j,))))])
        return r, K, fam
    return from_fn((poly(K),), lambda i: T.app(fam, i), "i"), K, fam


def trapz_spec(f, n, dx):
    """dx * sum_{k < n-1} (f(k) + f(k+1)) / 2"""
    return T.scale(mul(poly(dx), S(poly(n) - 1, lambda k: f(k) + f(k + 1))), T.Q(1, 2))


def valid_breaks(obs, n):
    """obs is None or strictly increasing inside [0, n)."""
    if obs is None:
        return True
    if isinstance(obs, (list, tuple)):
        obs = SList([list(obs)])
    if isinstance(obs, SList):
        K, get = obs.count(), lambda j: poly(obs.get(j))
        if K.const() == 0:
            return True
    else:
        obs = V.as_arr(obs)
        K, get = obs.shape[0], lambda j: obs.get((j,))
    k = T.fresh("k")
    with C.assume([("le", neg(P(k))), ("lt", P(k) - K)]):
        o = get(P(k))
        if C.decide("le", neg(o)) is not True or C.decide("lt", o - n) is not True:
            return False
    with C.assume([("le", neg(P(k))), ("lt", P(k) + 1 - K)]):
        return C.decide("lt", get(P(k)) - get(P(k) + 1)) is True


def my_trapz(fx, dx=1.0, obs_t=None):
    """pre: breaks increasing inside the window; post: the composite trapezoidal sum."""
    if not isinstance(fx, Arr):
        V.unsupported("my_trapz of something that is not an array")
    n = fx.shape[0]
    if not valid_breaks(obs_t, n):
        V.unsupported("precondition of my_trapz: breaks not increasing inside the window")
    g, dx = fx.snap(), poly(dx)
    sh = fx.shape[1:]
    get = lambda i: trapz_spec(lambda k: g((P(k),) + tuple(i)), n, dx)
    return from_fn(sh, get) if sh else Num(get(()))


STUB = {"src.numerics.utilities:my_trapz": my_trapz}
