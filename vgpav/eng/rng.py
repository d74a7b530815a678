"""Random generators and splines as assumed contracts."""
from . import npshim as N
from . import seq as S
from . import terms as T
from . import val as V
from .terms import P
from .val import Arr, Num, from_fn, poly, unsupported

_os = [0]


class SeedSequence:
    def __init__(self, seed=None, **k):
        self.seed = seed


class Generator:
    """A stream of draws: draw number n of the stream with this seed is a fixed array; the
    stream of an unseeded generator is its own."""

    def __init__(self, key):
        self.key = key            # tuple of Polys, or a fresh name
        self.count = Num(P(0))

    def _draw(self, kind, size):
        n = poly(self.count)
        S.sym_setattr(self, "count", Num(n + 1))
        key = self.key
        if size is None:
            return Num(T.app("draw_%s_0_%d" % (kind, len(key)), key + (n,)))
        sh = N.shape_of(size)
        return from_fn(sh, lambda i: T.app("draw_%s_%d_%d" % (kind, len(sh), len(key)),
                                           key + (n,) + sh + tuple(i)))

    def standard_normal(self, size=None, **k):
        return self._draw("normal", size)

    def normal(self, loc=0, scale=1, size=None):
        return loc + scale * self._draw("normal", size)

    def uniform(self, low=0, high=1, size=None):
        return low + (high - low) * self._draw("uniform", size)

    def random(self, size=None):
        return self._draw("uniform", size)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsupported("Generator.%s" % n)


def default_rng(seed=None):
    if isinstance(seed, SeedSequence):
        seed = seed.seed
    if seed is None:
        _os[0] += 1
        return Generator((P(T.sym("entropy%d" % _os[0], True)),))
    if isinstance(seed, Generator):
        return seed
    return Generator((P(T.sym("seed", True)), poly(seed)))


def elsewhere(name):
    """A draw from a generator shared with the rest of the program: any value."""
    def f(*a, **k):
        return getattr(default_rng(), name)(*a, **k)
    return f


def random_ns():
    d = dict(default_rng=default_rng, SeedSequence=SeedSequence, Generator=Generator,
             seed=lambda *a: None, rand=lambda *a: default_rng().random(a or None),
             randn=lambda *a: default_rng().standard_normal(a or None))
    d.update({n: elsewhere(n) for n in ("standard_normal", "normal", "uniform", "random")})
    return N.Namespace("numpy.random", d)


def py_random():
    return N.Namespace("random", dict(
        seed=lambda *a: None, random=elsewhere("random"), uniform=elsewhere("uniform"),
        gauss=elsewhere("normal"), normalvariate=elsewhere("normal")))


class CubicSpline:
    """An interpolating function: an opaque functional of the nodes and the values."""

    def __init__(self, x, y, axis=0, **k):
        self.x, self.y = N.arr(x), N.arr(y)
        self.k = tuple(sorted((a, str(b)) for a, b in k.items()))
        self.nu = 0
        if V.eq_dim(self.x.shape[0], self.y.shape[0]) is not True:
            unsupported("spline of arrays not known to have the same length")

    def __call__(self, t, nu=0, **k):
        name = "spline%d%s" % (self.nu + int(nu), "".join("_%s_%s" % x for x in self.k))
        y, x = self.y, self.x
        d = len(y.shape) - 1
        ga = t if isinstance(t, Arr) else None
        tp = None if ga is not None else poly(t)
        nt = len(ga.shape) if ga is not None else 0
        xs, ys = x.snap(), y.snap()
        from . import ctx as C

        def get(i):
            p = T.fresh("p")
            with C.binders([(p, x.shape[0])]):
                a, b = xs((P(p),)), ys((P(p),) + tuple(i[nt:]))
            tt = tp if ga is None else ga.get(tuple(i[:nt]))
            return T.mkfun(name, (x.shape[0],), (p,), (a, b, tt), ())
        sh = (tuple(ga.shape) if ga is not None else ()) + tuple(y.shape[1:])
        return from_fn(sh, get) if sh else Num(get(()))

    def derivative(self, nu=1):
        r = CubicSpline(self.x, self.y)
        r.k, r.nu = self.k, self.nu + int(nu)
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsupported("CubicSpline.%s" % n)
