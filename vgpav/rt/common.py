import contextlib
import io
import os
import sys
import numpy as np

REPO = os.environ.get("VGPAV_REPO", "/repo")


class Fail(Exception):
    """A contract evaluated to false on a concrete input of the real code."""


def rep(x, n=6):
    a = np.asarray(x)
    if a.dtype == object:
        return repr(x)[:200]
    f = a.ravel()
    s = ", ".join("%.8g" % v if isinstance(v, (float, np.floating)) else str(v)
                  for v in f[:n].tolist())
    return "%s[%s%s]" % (a.shape, s, ", ..." if f.size > n else "")


def close(label, got, want, rtol=1e-8, atol=1e-10, scale=None):
    g = np.asarray(got)
    w = np.asarray(want)
    try:
        g = g.astype(float)
    except (TypeError, ValueError):
        raise Fail("%s: not numeric: %r" % (label, got))
    w = w.astype(float)
    if g.shape != w.shape:
        raise Fail("%s: shape %s, expected %s" % (label, g.shape, w.shape))
    if g.size == 0:
        return
    if scale is None:
        scale = float(np.max(np.abs(w))) if np.all(np.isfinite(w)) else 1.0
    bad = ~(np.abs(g - w) <= atol + rtol * scale)
    if np.any(bad):
        i = tuple(int(v) for v in np.argwhere(np.atleast_1d(bad))[0])
        g1, w1 = np.atleast_1d(g), np.atleast_1d(w)
        raise Fail("%s: at %s got %.12g, expected %.12g" % (label, i, g1[i], w1[i]))


def same(label, got, want):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.array_equal(g, w):
        raise Fail("%s: got %s, expected %s" % (label, rep(g), rep(w)))


def ok(label, cond, detail=""):
    if not bool(cond):
        raise Fail("%s%s" % (label, "" if isinstance(detail, str) and not detail else ": " + str(detail)))


def raises(label, fun, kinds=(Exception,)):
    try:
        with quiet():
            r = fun()
    except kinds:
        return
    except Exception as e:  # noqa
        raise Fail("%s: raised %r" % (label, e))
    raise Fail("%s: no error raised (returned %r)" % (label, type(r)))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
         contextlib.redirect_stderr(io.StringIO()):
        yield


def frozen(*arrs):
    return [np.array(a, copy=True) for a in arrs]


def unchanged(label, before, *arrs):
    for k, (b, a) in enumerate(zip(before, arrs)):
        if not np.array_equal(np.asarray(b), np.asarray(a), equal_nan=True):
            raise Fail("%s: argument %d was modified" % (label, k))


class Later:
    """Results of earlier calls: later calls leave them as they were."""

    def __init__(self):
        self.kept = []

    def add(self, label, *arrs):
        for a in arrs:
            if isinstance(a, np.ndarray):
                self.kept.append((label, a, a.copy()))

    def check(self):
        for label, a, b in self.kept:
            if not np.array_equal(a, b, equal_nan=True):
                raise Fail("%s: the result of an earlier call was overwritten" % label)


def whole(on, *arrs):
    """The same arguments as arrays of whole numbers of integer type, if asked for."""
    if not on:
        return arrs
    return tuple(np.rint(a).astype(int) if isinstance(a, np.ndarray) else a for a in arrs)


def spd(rng, d, scale=1.0, cond=1.0):
    q = rng.normal(size=(d, d))
    a = q @ q.T / d + cond * np.eye(d)
    return scale * 0.5 * (a + a.T)


def whole_spd(on, *arrs):
    """The same for covariances, which stay positive definite."""
    if not on:
        return arrs
    out = []
    for a in arrs:
        b = np.rint(4. * a / np.abs(a).max()).astype(int)
        out.append(b + np.diag(np.abs(b).sum(axis=0) + 1))
    return tuple(out)


def sym(rng, *shape):
    a = rng.normal(size=shape)
    return 0.5 * (a + np.swapaxes(a, -1, -2))


def add_repo():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


add_repo()

MODELS = ("DW", "OU", "L63", "L96")


def build(model, sigma, theta, seed, **kw):
    """A process of the given model, silently."""
    with quiet():
        if model == "DW":
            from src.dynamics.double_well import DoubleWell as C
        elif model == "OU":
            from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck as C
        elif model == "L63":
            from src.dynamics.lorenz_63 import Lorenz63 as C
        else:
            from src.dynamics.lorenz_96 import Lorenz96 as C
        return C(sigma, theta, seed, **kw)


def window(proc, n, dt):
    """Give a process the time grid of n points and a path of the right shape."""
    proc.time_window = dt * np.arange(n)


def obs_sets(rng, n, k):
    """A strictly increasing set of k indices of range(n)."""
    return np.sort(rng.choice(n, size=min(k, n), replace=False))
