"""The parts of numpy that the code under proof uses, on symbolic arrays.

Each function is the assumed contract of the numpy / scipy function of that name, over
the mathematical reals."""
import itertools
from fractions import Fraction

from . import ctx as C
from . import linalg as L
from . import seq as S
from . import terms as T
from . import val as V
from .seq import SList, SIter, Seq
from .terms import P, ONE, ZERO, add, mul, neg
from .val import Arr, Cond, DType, Num, as_arr, dkind, ew, ew1, from_fn, poly, unsupported


class Namespace:
    def __init__(self, name, d):
        self.__dict__.update(d)
        self.__name__ = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        unsupported("%s.%s" % (self.__dict__.get("__name__"), n))


def shape_of(s):
    if isinstance(s, (tuple, list, SList)):
        return tuple(poly(x) for x in s)
    if isinstance(s, Arr) and s.shape:
        return tuple(poly(x) for x in s)
    return (poly(s),)


def arr(x):
    return S.to_array(x)


def asarray(x, dtype=None, **k):
    if x is None:
        unsupported("array from None")
    a = arr(x)
    if dtype is not None and dkind(dtype) != a.kind:
        return V.cast(a, dtype)
    return a


def array(x, dtype=None, copy=True, ndmin=0, **k):
    a = asarray(x, dtype)
    if a is x:
        a = a.copy()
    while len(a.shape) < ndmin:
        a = a[None]
    return a


def full(shape, v, dtype=None, **k):
    if dkind(dtype) == "i" and V.kind_of(v) == "f":
        v = V.cast(v, dtype)
    p = poly(v)
    return from_fn(shape_of(shape), lambda i: p, dkind(dtype) or V.kind_of(v))


def zeros(shape, dtype=float, **k):
    return from_fn(shape_of(shape), lambda i: ZERO, dkind(dtype))


def ones(shape, dtype=float, **k):
    return from_fn(shape_of(shape), lambda i: ONE, dkind(dtype))


def empty(shape, dtype=float, **k):
    nm = "empty!%d" % next(T._fresh)
    return from_fn(shape_of(shape), lambda i: T.app(nm, i), dkind(dtype))


def zeros_like(a, dtype=None, **k):
    a = arr(a)
    return from_fn(a.shape, lambda i: ZERO, dkind(dtype) or a.kind)


def ones_like(a, dtype=None, **k):
    a = arr(a)
    return from_fn(a.shape, lambda i: ONE, dkind(dtype) or a.kind)


def empty_like(a, dtype=None, **k):
    a = arr(a)
    return empty(a.shape, dtype or DType(a.kind))


def full_like(a, v, dtype=None, **k):
    a = arr(a)
    return full(a.shape, v, (int if a.kind == "i" else float) if dtype is None else dtype)


def eye(n, M=None, k=0, dtype=float, **kw):
    n = poly(n)
    m = n if M is None else poly(M)
    k = poly(k)
    return from_fn((n, m), lambda i: T.bracket("eq", i[1] - i[0] - k), dkind(dtype))


def identity(n, **k):
    return eye(n)


def diag(v, k=0):
    a = arr(v)
    if poly(k).const() != 0:
        unsupported("np.diag with an offset")
    if len(a.shape) == 1:
        g = a.snap()

        def get(i):
            b = T.bracket("eq", i[0] - i[1])
            if b.const() == 0:
                return ZERO
            return mul(b, g((i[0],)))
        return from_fn((a.shape[0], a.shape[0]), get, a.kind)
    if len(a.shape) == 2:
        return a.diagonal()
    raise ValueError("Input must be 1- or 2-d.")


def outer(a, b):
    a, b = arr(a).ravel(), arr(b).ravel()
    f, g = a.snap(), b.snap()
    return from_fn((a.shape[0], b.shape[0]), lambda i: mul(f((i[0],)), g((i[1],))))


def inner(a, b):
    a, b = arr(a), arr(b)
    if len(b.shape) >= 2:
        if len(b.shape) > 2:
            unsupported("np.inner of high dimension")
        b = b.T
    return V.dot(a, b)


def vdot(a, b):
    return V.dot(arr(a).ravel(), arr(b).ravel())


def dot(a, b):
    return V.dot(a, b)


def matmul(a, b):
    return V.matmul(a, b)


def multi_dot(xs):
    r = None
    for x in xs:
        r = x if r is None else V.dot(r, x)
    return r


def trace(a, *r, **k):
    return arr(a).trace(*r, **k)


def transpose(a, axes=None):
    a = arr(a)
    return a.T if axes is None else a.transpose(*axes)


def kron(*a):
    unsupported("np.kron")


def tile(a, reps):
    a = arr(a)
    r = list(shape_of(reps))
    n = max(len(r), len(a.shape))
    r = [ONE] * (n - len(r)) + r
    sh = [ONE] * (n - len(a.shape)) + list(a.shape)
    g, k = a.snap(), len(a.shape)

    def get(i):
        out = []
        for j in range(n - k, n):
            d = sh[j]
            if r[j].const() == 1:
                out.append(i[j])
            elif d.const() == 1:
                out.append(ZERO)
            else:
                out.append(T.mkfn("imod", (i[j], d)))
        return g(tuple(out))
    return from_fn([mul(x, y) for x, y in zip(r, sh)], get, a.kind)


def repeat(a, n, axis=None):
    a = arr(a)
    n = poly(n)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = int(axis) % max(len(a.shape), 1)
    g = a.snap()

    def get(i):
        i = list(i)
        if a.shape[axis].const() == 1:
            i[axis] = ZERO
        else:
            q, r = T.divsplit(i[axis], n)
            i[axis] = q if q is not None else T.mkfn("idiv", (i[axis], n))
        return g(tuple(i))
    sh = list(a.shape)
    sh[axis] = mul(sh[axis], n)
    return from_fn(sh, get, a.kind)


def split(x, cuts, axis=0):
    """At a list of positions."""
    x = arr(x)
    if V.is_scalar(cuts) and not isinstance(cuts, Arr):
        unsupported("numpy.split into equal parts")
    ax = int(axis) % len(x.shape)
    cs = [0] + list(S.siter(cuts)) + [None]
    pre = (slice(None),) * ax
    return S.SList([[x[pre + (slice(a, b),)] for a, b in zip(cs, cs[1:])]])


def concatenate(xs, axis=0, **k):
    if isinstance(xs, Arr):
        xs = list(xs)
    if isinstance(xs, SList) and not xs.concrete:
        unsupported("concatenation of a symbolic number of arrays")
    xs = [arr(x) for x in xs]
    if axis is None:
        xs, axis = [x.ravel() for x in xs], 0
    if any(not x.shape for x in xs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    n = len(xs[0].shape)
    axis = int(axis) % n
    for x in xs[1:]:
        if len(x.shape) != n:
            raise ValueError("all the input array dimensions must match")
        for j in range(n):
            if j != axis:
                d = V.eq_dim(x.shape[j], xs[0].shape[j])
                if d is None:
                    unsupported("concatenation of arrays of unrelated shape")
                if not d:
                    raise ValueError("all the input array dimensions must match exactly")
    # empty lists stay out of the value
    gs = [(x.snap(), x.shape[axis]) for x in xs if x.shape[axis].const() != 0]
    tot = ZERO
    for x in xs:
        tot = tot + x.shape[axis]

    def get(i):
        def part(k, base):
            g, d = gs[k]
            loc = i[:axis] + (i[axis] - base,) + i[axis + 1:]
            if k == len(gs) - 1:
                return g(loc)
            c = T.bracket("lt", i[axis] - base - d)
            if c.const() == 1:
                return g(loc)
            if c.const() == 0:
                return part(k + 1, base + d)
            with C.assume([("lt", i[axis] - base - d)]):
                v = g(loc)
            with C.assume([("le", base + d - i[axis])]):
                w = part(k + 1, base + d)
            return mul(c, v) + mul(ONE - c, w)
        return part(0, ZERO)
    ks = {x.kind for x in xs}
    sh = list(xs[0].shape)
    sh[axis] = tot
    if not gs:
        return from_fn(sh, lambda i: ZERO)
    return from_fn(sh, get, "f" if "f" in ks else xs[0].kind)


def append(a, v, axis=None):
    if axis is None:
        return concatenate((arr(a).ravel(), arr(v).ravel()))
    return concatenate((a, v), axis)


def stack(xs, axis=0):
    if int(axis) == 0:
        return arr(xs if isinstance(xs, (SList, Arr)) else list(xs)).copy()
    xs = [arr(x) for x in xs]
    n = len(xs[0].shape) + 1
    ax = int(axis) % n
    return concatenate([x[tuple([slice(None)] * ax + [None])] for x in xs], ax)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if len(xs[0].shape) == 1 else 1)


def column_stack(xs):
    return concatenate([x[:, None] if len(x.shape) == 1 else x for x in map(arr, xs)], 1)


def atleast_1d(*xs):
    if len(xs) != 1:
        return tuple(atleast_1d(x) for x in xs)
    a = arr(xs[0])
    return a.reshape(1) if not a.shape else a


def atleast_2d(*xs):
    if len(xs) != 1:
        return tuple(atleast_2d(x) for x in xs)
    a = arr(xs[0])
    return a.reshape(1, 1) if not a.shape else a[None] if len(a.shape) == 1 else a


def roll(a, shift, axis=None):
    a = arr(a)
    if axis is None:
        if len(a.shape) != 1:
            return roll(a.ravel(), shift, 0).reshape(*a.shape)
        axis = 0
    axis = int(axis) % len(a.shape)
    g, s, n = a.snap(), poly(shift), a.shape[axis]
    return from_fn(a.shape, lambda i: g(i[:axis] + (T.mkfn("imod", (i[axis] - s, n)),)
                                        + i[axis + 1:]), a.kind)


def diff(a, n=1, axis=-1, **k):
    if int(n) != 1:
        unsupported("np.diff of order %s" % n)
    a = arr(a)
    axis = int(axis) % len(a.shape)
    g = a.snap()
    sh = list(a.shape)
    sh[axis] = sh[axis] - 1

    def get(i):
        return g(i[:axis] + (i[axis] + 1,) + i[axis + 1:]) - g(i)
    return from_fn(sh, get, a.kind)


def flip(a, axis=None):
    a = arr(a)
    axes = range(len(a.shape)) if axis is None else [int(axis) % len(a.shape)]
    return a[tuple(slice(None, None, -1) if k in axes else slice(None)
                   for k in range(len(a.shape)))]


def arange(*a, dtype=None, **kw):
    if "step" in kw:
        a = ((0,) if len(a) < 2 else ()) + tuple(a) + (kw.pop("step"),)
    V.plain(kw, "np.arange")
    ps = [poly(x) for x in a]
    st, b, d = (ZERO, ps[0], ONE) if len(ps) == 1 else \
        (ps[0], ps[1], ONE) if len(ps) == 2 else ps
    # ceil((b - st) / d)
    x = V._div(b - st, d)
    n = neg(T.mkfn("floor", (neg(x),)))
    if C.decide("le", neg(n)) is not True:
        if not bool(V.compare("le", ZERO, n)):
            n = ZERO
    k = dkind(dtype) or ("i" if all(T.isint(p) for p in (st, d)) else "f")
    if k == "i" and not all(T.isint(p) for p in (st, d)):
        unsupported("np.arange of whole numbers with fractional steps")
    return from_fn((n,), lambda i: st + mul(d, i[0]), k)


def linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    a, b, n = poly(a), poly(b), poly(num)
    m = n - 1 if endpoint else n
    st = V._div(b - a, m) if m.const() != 0 else ZERO
    if dkind(dtype) == "i" and T.isint(a) and T.isint(b) and T.isint(m) \
            and C.decide("le", 1 - m) is True:
        return from_fn((n,), lambda i: a + T.mkfn("idiv", (mul(i[0], b - a), m)), "i")
    if dkind(dtype) == "i":
        return from_fn((n,), lambda i: T.mkfn("floor", (a + mul(i[0], st),)), "i")
    return from_fn((n,), lambda i: a + mul(i[0], st), "f")


def take(a, idx, axis=None, **k):
    a = arr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    axis = int(axis) % len(a.shape)
    if V.is_scalar(idx):
        return a[tuple([slice(None)] * axis + [idx])]
    return a[tuple([slice(None)] * axis + [arr(idx)])].copy()


def unique(a, **k):
    """Of a strictly increasing array (its own result); anything else is refused."""
    a = arr(a).ravel()
    if k:
        unsupported("np.unique with options")
    if not V.increasing(a):
        unsupported("np.unique of an array not known to be increasing")
    return a.copy()


def sort(a, **k):
    a = arr(a)
    if len(a.shape) == 1 and V.increasing(a):
        return a.copy()
    unsupported("sorting")


def where(c, *xy):
    if not xy:
        unsupported("np.where with one argument")
    x, y = xy
    cs = [arr(z) if not V.is_scalar(z) else z for z in (c, x, y)]
    sh = ()
    for z in cs:
        sh = V.broadcast(sh, z.shape if isinstance(z, Arr) else ())
    gc, gx, gy = [V.bget(z, sh) for z in cs]

    def get(i):
        w = gc(i)
        k = w.const()
        if k is not None:
            return gx(i) if k else gy(i)
        return mul(w, gx(i)) + mul(ONE - w, gy(i))
    return from_fn(sh, get) if sh else Num(get(()))


def clip(x, lo, hi, **k):
    return ew("min", ew("max", x, lo), hi)


def f1(name):
    def f(x, **k):
        return ew1(lambda p: T.mkfn(name, (p,)), x, "f" if name != "abs" else None)
    return f


def square(x):
    return ew("mul", x, x)


def sign(x):
    return ew1(lambda p: T.bracket("lt", neg(p)) - T.bracket("lt", p), x)


def ceil(x):
    return ew1(lambda p: neg(T.mkfn("floor", (neg(p),))), x)


def allclose(a, b, *r, **k):
    """Of arrays that are equal; anything else is refused."""
    if bool(V.any_all(ew("eq", a, b), True)):
        return True
    unsupported("np.allclose of arrays not known to be equal")


def array_equal(a, b):
    a, b = arr(a), arr(b)
    if len(a.shape) != len(b.shape):
        return False
    for c, d in zip(a.shape, b.shape):
        r = V.eq_dim(c, d)
        if r is None:
            unsupported("np.array_equal of arrays of unrelated shape")
        if not r:
            return False
    return V.any_all(ew("eq", a, b), True)


def isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), **k):
    """|a - b| <= atol + rtol |b|."""
    d = ew("sub", a, b)
    if k or not V.is_scalar(d) or not all(V.is_scalar(x) for x in (rtol, atol)):
        unsupported("np.isclose of arrays")
    return V.compare("le", T.mkfn("abs", (poly(d),)), V.poly(atol) + T.mul(
        V.poly(rtol), T.mkfn("abs", (poly(b),))))


def isfinite(x):
    return ew1(lambda p: ONE, x, "b")


def isnan(x):
    return ew1(lambda p: ZERO, x, "b")


def nsum(x, axis=None, keepdims=False, **k):
    return V.total(S.aslist(x) if isinstance(x, SIter) else x, axis, keepdims)


def mean(x, axis=None, keepdims=False, **k):
    return arr(x).mean(axis, keepdims)


def prod(x, axis=None, **k):
    a = arr(x)
    if axis is not None or a.size.__class__ is not int:
        unsupported("np.prod")
    r = ONE
    for t in itertools.product(*[range(int(d.const())) for d in a.shape]):
        r = mul(r, a.get(tuple(T.num(j) for j in t)))
    return Num(r)


def nany(x, **k):
    return V.any_all(arr(x) if not isinstance(x, (Arr, Cond)) else x, False)


def nall(x, **k):
    return V.any_all(arr(x) if not isinstance(x, (Arr, Cond)) else x, True)


def ndim(x):
    return len(arr(x).shape) if not V.is_scalar(x) else 0


def nshape(x):
    return shape_tuple(arr(x))


def shape_tuple(a):
    return tuple(V.out_int(d) for d in a.shape)


def copy(x, **k):
    if V.is_scalar(x) and not isinstance(x, Arr):
        return as_arr(x)
    return arr(x).copy()


def einsum(spec, *ops):
    spec = str(spec).replace(" ", "")
    if "." in spec:
        unsupported("einsum %s" % spec)
    if "->" not in spec:
        flat = spec.replace(",", "")
        spec += "->" + "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = [arr(o) for o in ops]
    ext = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise ValueError("einsum operand does not match its subscripts")
        for c, d in zip(s, o.shape):
            if c in ext and V.eq_dim(ext[c], d) is not True:
                raise ValueError("einsum operands do not agree")
            ext[c] = d
    gs = [o.snap() for o in ops]
    summed = [c for c in ext if c not in out]

    def get(i):
        m = dict(zip(out, i))
        bs = []
        for c in summed:
            v = T.fresh("e")
            bs.append((v, ext[c]))
            m[c] = P(v)
        with C.binders(bs):
            r = ONE
            for s, g in zip(ins, gs):
                r = mul(r, g(tuple(m[c] for c in s)))
        return T.close_poly(bs, r)
    return from_fn([ext[c] for c in out], get) if out else Num(get(()))


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = arr(y)
    if x is not None:
        x = arr(x)
        if len(y.shape) != 1 or len(x.shape) != 1:
            unsupported("trapezoid with sample points on an array of more than one axis")
        if V.eq_dim(x.shape[0], y.shape[0]) is not True:
            unsupported("trapezoid with sample points of another length")
        return V.total(ew("mul", x[1:] - x[:-1], ew("div", y[1:] + y[:-1], 2)))
    axis = int(axis) % len(y.shape)
    n = y.shape[axis]
    g, h = y.snap(), T.scale(poly(dx), Fraction(1, 2))
    sh = y.shape[:axis] + y.shape[axis + 1:]

    def get(i):
        v = T.fresh("t")
        m = n - 1
        with C.binders([(v, m)]):
            b = g(i[:axis] + (P(v),) + i[axis:]) + g(i[:axis] + (P(v) + 1,) + i[axis:])
        s = T.mksum(v, m, b)
        if C.decide("le", neg(m)) is not True:
            s = mul(T.bracket("le", neg(m)), s)
        return mul(h, s)
    return from_fn(sh, get) if sh else Num(get(()))


def tril(a, k=0):
    a, k = arr(a), poly(k)
    if len(a.shape) < 2:
        unsupported("np.tril of a vector")
    g = a.snap()
    return from_fn(a.shape, lambda i: mul(T.bracket("le", i[-1] - i[-2] - k), g(i)), a.kind)


def triu(a, k=0):
    a, k = arr(a), poly(k)
    if len(a.shape) < 2:
        unsupported("np.triu of a vector")
    g = a.snap()
    return from_fn(a.shape, lambda i: mul(T.bracket("le", i[-2] + k - i[-1]), g(i)), a.kind)


def fill_diagonal(a, val):
    if not isinstance(a, Arr) or len(a.shape) != 2 or not V.is_scalar(val) \
            or V.eq_dim(*a.shape) is not True:
        unsupported("np.fill_diagonal of this array")
    if a.kind == "i":
        val = V.cast(val, int)
    g, v = a.snap(), poly(val)

    def get(i):
        c = T.bracket("eq", i[0] - i[1])
        return mul(c, v) + mul(ONE - c, g(i))
    a[...] = from_fn(a.shape, get, a.kind)


def broadcast_to(a, shape, **k):
    a, sh = arr(a), shape_of(shape)
    if not V.same_shape(V.broadcast(a.shape, sh), sh):
        raise ValueError("operands could not be broadcast together")
    return from_fn(sh, V.bget(a, sh), a.kind)


def moveaxis(a, i, j):
    a = arr(a)
    n = len(a.shape)
    if not (V.is_scalar(i) and V.is_scalar(j)):
        unsupported("np.moveaxis of several axes")
    ax = [k for k in range(n) if k != int(i) % n]
    ax.insert(int(j) % n, int(i) % n)
    return a.transpose(*ax)


def tensordot(a, b, axes=2):
    a, b = arr(a), arr(b)
    if not V.is_scalar(axes):
        unsupported("np.tensordot over named axes")
    n = int(axes)
    A, B = "abcdefgh"[:len(a.shape)], "pqrstuvw"[:len(b.shape)]
    if n:
        B = A[len(A) - n:] + B[n:]
    if not n or len(A) < n:
        unsupported("np.tensordot")
    return einsum("%s,%s->%s" % (A, B, A[:-n] + B[n:]), a, b)


def var(x, axis=None, ddof=0, keepdims=False, **k):
    x = arr(x)
    n = poly(x.size if axis is None else x.shape_at(axis)) - poly(ddof)
    if C.decide("le", ONE - n) is not True:
        unsupported("variance of too few values")
    d = x - (x.mean() if axis is None else x.mean(axis, True))
    return ew("div", V.total(ew("mul", d, d), axis, keepdims), Num(n))


def std(x, *a, **k):
    return ew1(lambda p: T.mkfn("sqrt", (p,)), var(x, *a, **k), "f")


def cumsum(x, axis=None, **k):
    x = arr(x)
    if axis is None:
        x, axis = x.ravel(), 0
    axis = int(axis) % len(x.shape)
    g = x.snap()

    def get(i):
        v = T.fresh("c")
        n = i[axis] + 1
        with C.binders([(v, n)]):
            b = g(i[:axis] + (P(v),) + i[axis + 1:])
        return T.mksum(v, n, b)
    return from_fn(x.shape, get, x.kind)


def hypot(a, b):
    return ew1(lambda p: T.mkfn("sqrt", (p,)), ew("mul", a, a) + ew("mul", b, b), "f")


def trunc(x):
    return ew1(V.trunc, x)


class Eig:
    pass


def eigvals(a):
    a = arr(a)
    r = from_fn((a.shape[0],), lambda idx: unsupported("eigenvalues are opaque"))
    if len(a.shape) != 2 or V.eq_dim(*a.shape) is not True:
        raise L.LinAlgError("Last 2 dimensions of the array must be square")
    r.tag = ("eig", a)
    return r


def norm(x, ord=None, axis=None, **k):
    if ord is not None:
        unsupported("np.linalg.norm with options")
    x = arr(x)
    if axis is not None:
        if not V.is_scalar(axis):
            unsupported("np.linalg.norm of matrices")
        return ew1(lambda p: T.mkfn("sqrt", (p,)), V.total(ew("mul", x, x), axis), "f")
    return Num(T.mkfn("sqrt", (poly(V.total(ew("mul", x, x))),)))


def det(a):
    unsupported("determinant")


def slogdet(a):
    a = arr(a)
    if not bool(L.pd_cond(a)):
        unsupported("slogdet of a matrix not known to be positive definite")
    return Num(ONE), L.matrix_fun("logdet", a)


def npcholesky(a, **k):
    return L.cholesky(a)


def spcholesky(a, lower=False, **k):
    """scipy: upper triangular by default."""
    return L.cholesky(a, bool(lower))


def mask_positions(x, ext):
    """Positions of the true entries of a boolean mask."""
    c = x.shape[0].const()
    if c is not None:
        out = []
        for k in range(int(c)):
            b = x.get((T.num(k),)).const()
            if b is None:
                unsupported("symbolic mask")
            if b:
                out.append(k)
        return arr(SList([out]))
    u = T.fresh("m")
    with C.binders([(u, ext)]):
        b = x.get((P(u),))
    if b.const() == 1:
        return from_fn((ext,), lambda i: i[0], "i")
    if b.const() == 0:
        return from_fn((ZERO,), lambda i: ZERO, "i")
    # the strictly increasing positions of the true entries
    if V.eq_dim(x.shape[0], poly(ext)) is not True:
        raise IndexError("boolean index did not match indexed array")
    key = T.mkfun("mask", (ext,), (u,), (b,), ())
    if key not in MASKS:
        MASKS[key] = "maskpos%d" % len(MASKS)
    fam = MASKS[key]
    K = P(T.sym("n_" + fam, True))
    C.learn([("le", neg(K)), ("le", K - ext)])
    inside = lambda idx: [("lt", idx[0]), ("le", K - idx[0])]
    T.FAM[fam] = {"isint": True, "inj": True, "facts": lambda idx, a: [
        ("or", inside(idx) + [("le", neg(a))]), ("or", inside(idx) + [("le", a - ext + 1)])]}
    return from_fn((K,), lambda i: T.app(fam, i), "i")


MASKS = {}


for _n, _f in list(globals().items()):
    if callable(_f) and getattr(_f, "__code__", None) and _f.__module__ == __name__ \
            and _n not in ("arange",) and not _n.startswith("_"):
        globals()[_n] = V.guarded(_f, _n)
