"""Symbolic numbers, conditions and arrays that the code under proof computes with."""
import itertools
from fractions import Fraction

from . import ctx as C
from . import terms as T
from .terms import P, ONE, ZERO, Unsupported, add, mul, neg, subst


class Stop(BaseException):
    """Control exceptions of the verifier; the code under proof cannot catch them."""


class NotUnderstood(Stop):
    pass


class Skip(Stop):
    """This path is covered by an obligation discharged elsewhere."""


def unsupported(msg):
    raise NotUnderstood(msg)


# ------------------------------------------------------------------- forking
class Path:
    """One run through the code: the branch decisions taken."""

    def __init__(self, prefix):
        self.prefix, self.pos, self.taken = list(prefix), 0, []
        self.w, self.lits = ONE, []

    def next(self):
        """The decisions of the next path in depth-first order, or None."""
        t = list(self.taken)
        while t and t[-1] is False:
            t.pop()
        if not t:
            return None
        t[-1] = False
        return t


class Undecided(BaseException):
    """A choice was to be made where none is allowed."""


NOFORK = [0]


def aside(c, f):
    """c, or False if f, run where c holds, changes nothing and makes no choice: then the
    paths with and without it need not be told apart."""
    if not isinstance(c, Cond) or not PATHS:
        return c
    from . import terms as T
    if c.b.const() is not None or c.lit is None or c.lit[0] == "ne":
        return c
    if C.decide(*c.lit) is not None:
        return c
    j0 = len(JOURNAL)
    NOFORK[0] += 1
    try:
        with C.assume([c.lit]):
            f()
        if len(JOURNAL) == j0:
            return False
    except Undecided:
        pass
    except Stop:
        raise
    except Exception:
        pass
    finally:
        NOFORK[0] -= 1
    undo_to(j0)
    return c


PATHS = []
MAXPATHS = [4000]


def fork(lit, cond):
    """Choose a branch of an undecided condition and assume it.  lit: (op, poly) or None;
    cond: the 0/1 Poly."""
    if not PATHS:
        unsupported("undecided condition outside a path: %s" % T.show(cond))
    if NOFORK[0]:
        raise Undecided()
    p = PATHS[-1]
    if p.pos < len(p.prefix):
        v = p.prefix[p.pos]
    else:
        v = True
    p.pos += 1
    p.taken.append(v)
    if lit is not None:
        f = lit if v else negate(lit)
    else:
        f = ("eq", cond - 1) if v else ("eq", cond)
    p.w = mul(p.w, cond if v else ONE - cond)
    p.lits.append(f)
    C.learn([f])
    return v


def negate(f):
    op, p = f
    if op == "le":
        return ("lt", neg(p))
    if op == "lt":
        return ("le", neg(p))
    if op == "eq":
        return ("ne", p)
    return ("eq", p)


def _ours(e):
    """Does this error speak of the engine's own classes, so that nothing is known about
    what Python would do?"""
    return any(w in str(e) for w in ("'Num'", "'Arr'", "'Cond'", "'SList'", "'SIter'", "'Seq'",
                                     "'function' object", "'method' object", "super(type"))


def explore(fn, on_end):
    """Run fn on every path; on_end(kind, value) with kind 'return' or 'raise' is called
    with the facts of the path in force."""
    prefix, n = [], 0
    while prefix is not None:
        n += 1
        if n > MAXPATHS[0]:
            unsupported("too many paths")
        mark = C.mark()
        p = Path(prefix)
        PATHS.append(p)
        try:
            try:
                v = fn()
                kind = "return"
            except Stop:
                raise
            except Exception as e:
                if isinstance(e, (TypeError, AttributeError)) and _ours(e):
                    unsupported("%s: %s" % (type(e).__name__, e))
                v, kind = e, "raise"
            on_end(kind, v)
        except Skip:
            pass
        finally:
            PATHS.pop()
            C.release(mark)
        prefix = p.next()
    return n


# ------------------------------------------------------------------- numbers
def poly(x):
    """The Poly of a scalar value."""
    if isinstance(x, Num):
        return x.p
    if isinstance(x, Cond):
        return x.b
    if isinstance(x, T.Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return T.num(x)
    if isinstance(x, float):
        return T.num(Fraction(repr(x))) if x == x and abs(x) != float("inf") else \
            unsupported("non-finite float")
    if isinstance(x, Arr) and not x.shape:
        return x.get(())
    if isinstance(x, Arr) and all(d.const() == 1 for d in x.shape):
        return x.get(tuple(ZERO for _ in x.shape))
    unsupported("not a scalar: %r" % (type(x),))


SCALAR = (int, float, Fraction, bool)


def is_scalar(x):
    return isinstance(x, SCALAR + (Num, Cond, T.Poly)) or (isinstance(x, Arr) and not x.shape)


# Options of numpy functions that change nothing in the value, with the settings of them
# that do; every other option a function does not name is refused.
PLAIN = {"order": ("C", "K", "A", None), "out": (None,), "keepdims": (False,), "where": (True,),
         "copy": (True,), "subok": (False, True), "check_finite": (False, True), "ddof": (0,),
         "casting": ("same_kind", "safe", "unsafe"), "dtype": (None, float), "axis": (None,),
         "retstep": (False,), "like": (None,), "equal_nan": (False, True), "kind": None,
         "overwrite_a": (False,), "overwrite_b": (False,), "lower": None, "ndmin": (0,)}


def plain(k, what):
    """Refuse options that are not known to be without effect."""
    for n, v in k.items():
        ok = PLAIN.get(n, ())
        if ok is None or not any(v is o or (type(v) is type(o) and v == o) for o in ok):
            unsupported("option %s=%r of %s" % (n, v, what))


def guarded(f, name):
    """f, with the options it does not name checked."""
    import functools
    import inspect
    ps = inspect.signature(f).parameters
    kw = [n for n, q in ps.items() if q.kind is q.VAR_KEYWORD]
    if not kw:
        return f
    named = set(ps) - set(kw)

    @functools.wraps(f)
    def g(*a, **k):
        plain({n: v for n, v in k.items() if n not in named}, name)
        return f(*a, **k)
    return g


class ArrayLike:
    __array_priority__ = 1000

    def __add__(self, o):
        return ew("add", self, o)

    def __radd__(self, o):
        return ew("add", o, self)

    def __sub__(self, o):
        return ew("sub", self, o)

    def __rsub__(self, o):
        return ew("sub", o, self)

    def __mul__(self, o):
        return ew("mul", self, o)

    def __rmul__(self, o):
        return ew("mul", o, self)

    def __truediv__(self, o):
        return ew("div", self, o)

    def __rtruediv__(self, o):
        return ew("div", o, self)

    def __floordiv__(self, o):
        return ew("fdiv", self, o)

    def __rfloordiv__(self, o):
        return ew("fdiv", o, self)

    def __mod__(self, o):
        return ew("mod", self, o)

    def __rmod__(self, o):
        return ew("mod", o, self)

    def __pow__(self, o):
        return ew("pow", self, o)

    def __rpow__(self, o):
        return ew("pow", o, self)

    def __neg__(self):
        return ew1(neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew1(lambda p: T.mkfn("abs", (p,)), self)

    def __lt__(self, o):
        return ew("lt", self, o)

    def __le__(self, o):
        return ew("le", self, o)

    def __gt__(self, o):
        return ew("lt", o, self)

    def __ge__(self, o):
        return ew("le", o, self)

    def __eq__(self, o):
        return ew("eq", self, o) if comparable(o) else False

    def __ne__(self, o):
        return ew("ne", self, o) if comparable(o) else True

    def __hash__(self):
        return id(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return dot(self, o)


def comparable(o):
    return isinstance(o, SCALAR + (ArrayLike, list, tuple)) and not isinstance(o, str)


class Num(ArrayLike):
    __slots__ = ("p",)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, p):
        self.p = p

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DType("i" if T.isint(self.p) else "f")

    def item(self, *a):
        return self

    def copy(self):
        return self

    def astype(self, t, **k):
        return cast(self, t)

    def ravel(self, order="C"):
        return from_fn((ONE,), lambda i: self.p)
    flatten = ravel

    def reshape(self, *s):
        return as_arr(self).reshape(*s)

    def any(self, **k):
        return truth(self)

    all = any

    def sum(self, **k):
        return self
    max = min = mean = sum

    def __getattr__(self, n):
        if n.startswith("_") or n in ("seq_len", "store", "tag", "kind"):
            raise AttributeError(n)
        unsupported("scalar.%s" % n)

    def __getitem__(self, key):
        if key is Ellipsis or (isinstance(key, tuple) and not key):
            return self
        if key is None:
            return as_arr(self)[None]
        raise TypeError("scalar is not subscriptable")

    def __len__(self):
        raise TypeError("len() of a scalar")

    def __iter__(self):
        raise TypeError("iteration over a scalar")

    def __bool__(self):
        return bool(truth(self))

    def __index__(self):
        c = self.p.const()
        if c is None or c.denominator != 1:
            unsupported("symbolic value used as a concrete index: %s" % T.show(self.p))
        return int(c)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        unsupported("float() of a symbolic value")

    def __str__(self):
        return T.show(self.p)
    __repr__ = __str__

    def __format__(self, spec):
        return T.show(self.p)


class Cond:
    """A condition: 0/1 Poly and, if it is one comparison, the literal."""
    __slots__ = ("b", "lit")
    shape = ()
    ndim = 0

    def __init__(self, b, lit=None):
        self.b, self.lit = b, lit

    def __bool__(self):
        c = self.b.const()
        if c is not None:
            return c != 0
        lit = self.lit
        if lit is not None:
            d = C.decide(*lit) if lit[0] != "ne" else C.decide("eq", lit[1])
            if d is not None:
                return d if lit[0] != "ne" else not d
        else:
            d = C.decide("eq", self.b)
            if d is not None:
                return not d
        return fork(lit, self.b)

    def __invert__(self):
        return Cond(ONE - self.b, negate(self.lit) if self.lit else None)

    def __and__(self, o):
        return Cond(mul(self.b, poly(o)))
    __rand__ = __and__

    def __or__(self, o):
        q = poly(o)
        return Cond(self.b + q - mul(self.b, q))
    __ror__ = __or__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def any(self, **k):
        return self

    def all(self, **k):
        return self

    def item(self):
        return self

    def __add__(self, o):
        return ew("add", Num(self.b), o)
    __radd__ = __add__

    def __mul__(self, o):
        return ew("mul", Num(self.b), o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return ew("sub", Num(self.b), o)

    def __rsub__(self, o):
        return ew("sub", o, Num(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, Cond)):
            q = poly(o)
            e = mul(self.b, q) + mul(ONE - self.b, ONE - q)
            return Cond(e)
        return NotImplemented

    def __hash__(self):
        return id(self)

    def __str__(self):
        return T.show(self.b)
    __repr__ = __str__


def compare(op, a, b):
    d = a - b
    if op == "ne":
        c = T.bracket("eq", d)
        return Cond(ONE - c, ("ne", d))
    return Cond(T.bracket(op, d), (op, d))


def truth(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, Num):
        return Cond(ONE - T.bracket("eq", x.p), ("ne", x.p))
    return x


def wrap(p):
    """Poly to the simplest value."""
    return Num(p)


# ------------------------------------------------------------------- dtypes
class DType:
    def __init__(self, k):
        self.kind = k

    def __eq__(self, o):
        return dkind(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return {"f": "float64", "i": "int64", "b": "bool"}[self.kind]


def dkind(t):
    if isinstance(t, DType):
        return t.kind
    if t is None:
        return None
    n = t if isinstance(t, str) else getattr(t, "__name__", str(t))
    if narrow(t):
        unsupported("single precision")
    if "bool" in n:
        return "b"
    if "int" in n or n in ("i", "u", "i8", "i4"):
        return "i"
    return "f"


class NARROW:
    """np.float32 and shorter."""

    def __new__(cls, x):
        return cast(x, cls)


def narrow(t):
    return t is NARROW or isinstance(t, str) and t.lstrip("<>=|") in (
        "f", "e", "f4", "f2", "float32", "float16", "single", "half")


def cast(x, t):
    if narrow(t):
        return ew1(lambda p: T.app("rounded", (p,)), as_arr(x)) if not is_scalar(x) else \
            Num(T.app("rounded", (poly(x),)))
    k = dkind(t)
    if isinstance(x, Arr):
        if k == "i" and x.kind == "f":
            return from_fn(x.shape, _trunc_get(x.snap()), "i")
        r = from_fn(x.shape, x.snap(), k or x.kind)
        r.tag = x.tag
        return r
    if k == "i":
        return Num(trunc(poly(x)))
    return x


def trunc(p):
    if T.isint(p):
        return p
    if C.decide("le", neg(p)) is True:
        return T.mkfn("floor", (p,))
    if C.decide("le", p) is True:
        return neg(T.mkfn("floor", (neg(p),)))
    c = T.bracket("le", neg(p))
    return mul(c, T.mkfn("floor", (p,))) - mul(ONE - c, T.mkfn("floor", (neg(p),)))


def _trunc_get(g):
    return lambda *i: trunc(g(i) if len(i) != 1 or not isinstance(i[0], tuple) else g(i[0]))


# -------------------------------------------------------------------- arrays
class Node:
    """One version of a store: either a getter (root) or a write on top of prev."""
    __slots__ = ("prev", "get", "lits", "val", "memo", "loc", "tag")

    def __init__(self, prev=None, get=None, lits=None, val=None, loc=None):
        self.prev, self.get, self.lits, self.val, self.loc = prev, get, lits, val, loc
        self.memo = {}
        self.tag = None

    def read(self, idx):
        k = (tuple(i.id for i in idx), C.ident())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._read(idx)
        return r

    def _read(self, idx):
        if self.prev is None:
            return self.get(idx)
        ls = []
        for op, p in self.lits(idx):
            b = T.bracket(op, p)
            c = b.const()
            if c == 0:
                return self.prev.read(idx)
            if c is None:
                ls.append(((op, p), b))
        if not ls:
            return self.val(idx)
        w = ONE
        for _, b in ls:
            w = mul(w, b)
        with C.assume([l for l, _ in ls]):
            v = self.val(idx)
        if len(ls) == 1:
            with C.assume([negate(ls[0][0])]):
                o = self.prev.read(idx)
        else:
            o = self.prev.read(idx)
        return mul(w, v) + mul(ONE - w, o)


class Store:
    """Mutable memory of an array; every write makes a new version."""
    __slots__ = ("cur", "shape", "name", "serial", "fixed")

    def __init__(self, shape, get, name=None):
        self.shape, self.cur, self.name, self.fixed = shape, Node(get=get), name, False
        self.serial = next(SERIAL)

    def write(self, lits, val, loc):
        if self.fixed:
            unsupported("a write to an item of a list of symbolic length")
        JOURNAL.append((self, self.cur))
        self.cur = Node(self.cur, None, lits, val, loc)


SERIAL = itertools.count()
JOURNAL = []      # (store, old version) or (callable undo)


def undo_to(n):
    """Undo every write after journal position n."""
    while len(JOURNAL) > n:
        e = JOURNAL.pop()
        if isinstance(e, tuple):
            e[0].cur = e[1]
        else:
            e()


def ident(idx):
    return idx


class Arr(ArrayLike):
    """A view of a store: shape, and the map from view indices to store indices."""
    __slots__ = ("store", "shape", "map", "kind", "contig", "inv", "tag")

    def __init__(self, store, shape, map_=ident, kind="f", contig=True, inv=None):
        self.store, self.shape, self.map, self.kind = store, tuple(shape), map_, kind
        self.contig, self.inv, self.tag = contig, inv, None

    # reading ------------------------------------------------------------
    def get(self, idx):
        return self.store.cur.read(self.map(idx))

    def snap(self):
        n, m = self.store.cur, self.map
        return lambda idx: n.read(m(idx))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def size(self):
        r = ONE
        for d in self.shape:
            r = mul(r, d)
        return out_int(r)

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        c = self.shape[0].const()
        if c is None:
            unsupported("concrete length of a symbolic array")
        return int(c)

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        c = self.shape[0].const()
        if c is None:
            unsupported("iteration over a symbolic array outside a loop or comprehension")
        return iter([self[k] for k in range(int(c))])

    def __bool__(self):
        if all(d.const() == 1 for d in self.shape):
            x = Num(self.get(tuple(ZERO for _ in self.shape)))
            return bool(truth(x))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __format__(self, spec):
        return "<array>"

    def __str__(self):
        return "<array>"
    __repr__ = __str__

    # shapes --------------------------------------------------------------
    @property
    def T(self):
        n = len(self.shape)
        if n < 2:
            return self
        m = self.map
        iv = self.inv
        a = Arr(self.store, self.shape[::-1], lambda idx: m(idx[::-1]), self.kind, False,
                (lambda i: iv(i)) if False else None)
        a.inv = _inv_perm(self, lambda t: t[::-1])
        return a

    def transpose(self, *axes):
        if not axes or axes == (None,):
            return self.T
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = len(self.shape)
        axes = [int(a) % n for a in axes]
        m = self.map

        def mp(idx):
            old = [None] * n
            for k, a in enumerate(axes):
                old[a] = idx[k]
            return m(tuple(old))
        r = Arr(self.store, [self.shape[a] for a in axes], mp, self.kind, False)
        r.inv = _inv_perm(self, lambda t: tuple(t[a] for a in axes))
        return r

    def swapaxes(self, i, j):
        ax = list(range(len(self.shape)))
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(*ax)

    def copy(self, order="C"):
        plain({"order": order}, "copy")
        r = from_fn(self.shape, self.snap(), self.kind)
        r.tag = self.tag
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self, order="C"):
        plain({"order": order}, "flatten")
        return self.copy().reshape(-1)

    def ravel(self, order="C"):
        plain({"order": order}, "ravel")
        return self.reshape(-1)

    def reshape(self, *shape, order="C"):
        plain({"order": order}, "reshape")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [poly(s) for s in shape]
        tot = ONE
        for d in self.shape:
            tot = mul(tot, d)
        for k, s in enumerate(shape):
            if s.const() == -1:
                rest = ONE
                for j, d in enumerate(shape):
                    if j != k:
                        rest = mul(rest, d)
                q, r = T.divsplit(tot, rest)
                if q is None or r.const() != 0:
                    unsupported("reshape with -1")
                shape[k] = q
        new = ONE
        for d in shape:
            new = mul(new, d)
        if C.decide("eq", new - tot) is not True:
            if C.decide("eq", new - tot) is False:
                raise ValueError("cannot reshape array")
            unsupported("reshape of %s to %s" % (self.shape, shape))
        if not self.contig:
            return self.copy().reshape(*shape)
        old = self.shape
        m = self.map
        sh = tuple(shape)
        if sh == old:
            return Arr(self.store, sh, m, self.kind, True, self.inv)

        def mp(idx):
            return m(unflat(flat(idx, sh), old))
        r = Arr(self.store, sh, mp, self.kind, True)
        r.inv = _inv_perm(self, lambda t: unflat(flat(t, old), sh))
        return r

    def astype(self, t, **k):
        return cast(self, t)

    def squeeze(self, axis=None):
        n = len(self.shape)
        axes = range(n) if axis is None else [int(a) % n for a in (
            axis if isinstance(axis, (tuple, list)) else (axis,))]
        gone = []
        for k in axes:
            one = C.decide("eq", self.shape[k] - 1)
            if one is None:
                unsupported("squeeze of an axis that may or may not be of size 1")
            if one:
                gone.append(k)
            elif axis is not None:
                raise ValueError("cannot select an axis to squeeze out which has size not "
                                 "equal to one")
        keep = [k for k in range(n) if k not in gone]
        m = self.map

        def mp(idx):
            old = [ZERO] * n
            for k, i in zip(keep, idx):
                old[k] = i
            return m(tuple(old))
        r = Arr(self.store, [self.shape[k] for k in keep], mp, self.kind, self.contig)
        r.inv = _inv_perm(self, lambda t: tuple(t[k] for k in keep))
        return r

    def diagonal(self, *a, **k):
        if a or k or len(self.shape) != 2:
            unsupported("diagonal with options")
        g = self.snap()
        return from_fn(self.shape[:1], lambda i: g((i[0], i[0])), self.kind)

    def trace(self, *a, **k):
        if a or k:
            unsupported("trace with options")
        return total(self.diagonal())

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if all(d.const() == 1 for d in self.shape):
            return Num(self.get(tuple(ZERO for _ in self.shape)))
        raise ValueError("can only convert an array of size 1")

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def sum(self, axis=None, keepdims=False, **k):
        return total(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        s = total(self, axis, keepdims)
        return s / (self.size if axis is None else self.shape_at(axis))

    def shape_at(self, axis):
        return out_int(self.shape[axis])

    def max(self, axis=None, **k):
        return opaque_reduce("amax", self, axis)

    def min(self, axis=None, **k):
        t = getattr(self, "tag", None)
        if t is not None and t[0] == "eig":
            return EigMin(t[1])
        return opaque_reduce("amin", self, axis)

    def any(self, axis=None, **k):
        if axis is not None and len(self.shape) != 1:
            unsupported("any along an axis")
        return any_all(self, False)

    def all(self, axis=None, **k):
        if axis is not None and len(self.shape) != 1:
            unsupported("all along an axis")
        return any_all(self, True)

    def fill(self, v):
        self[...] = v

    # indexing ------------------------------------------------------------
    def __getitem__(self, key):
        sel = select(self, key)
        if isinstance(sel, View):
            return sel.arr() if sel.shape or sel.keep0 else scalar_of(self, sel)
        return sel.read()

    def __setitem__(self, key, val):
        sel = select(self, key)
        sel.write(val)

    # in-place ------------------------------------------------------------
    def __getattr__(self, n):
        if n.startswith("_") or n in ("seq_len", "dtype"):
            raise AttributeError(n)
        unsupported("ndarray.%s" % n)

    def _inplace(self, op, o):
        v = ew(op, self, o)
        sh = v.shape if isinstance(v, Arr) else ()
        if not same_shape(sh, self.shape):
            raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and getattr(v, "kind", "f") == "f":
            raise TypeError("cannot cast in-place result to int")
        self[...] = v
        return self

    def __iadd__(self, o):
        return self._inplace("add", o)

    def __isub__(self, o):
        return self._inplace("sub", o)

    def __imul__(self, o):
        return self._inplace("mul", o)

    def __itruediv__(self, o):
        return self._inplace("div", o)

    def __ipow__(self, o):
        return self._inplace("pow", o)

    def __invert__(self):
        return ew1(lambda p: ONE - p, self, "b")

    def __and__(self, o):
        return ew("mul", self, o)

    def __or__(self, o):
        return ew("or", self, o)


def scalar_of(a, sel):
    p = a.store.cur.read(sel.mp(()))
    if a.kind == "b":
        return Cond(p)
    c = p.const()
    if a.kind == "i" and c is not None:
        return Num(p)
    return Num(p)


def _inv_perm(a, fwd):
    """Inverse map (store index -> view index) of a view derived from a by fwd."""
    base = a.inv

    def inv(sidx):
        """None if outside, else (lits, view index)."""
        if base is None:
            return [], fwd(sidx)
        lits, v = base(sidx)
        return lits, fwd(v)
    if a.inv is None and a.map is not ident:
        return None
    return inv


def out_int(p):
    """An extent as a value: a plain int if constant."""
    c = p.const()
    return int(c) if c is not None and c.denominator == 1 else Num(p)


class Shape(tuple):
    pass


def flat(idx, shape):
    r = ZERO
    for i, d in zip(idx, shape):
        r = mul(r, d) + i
    return r


def unflat(e, shape):
    """Indices of the flat position e in the shape."""
    shape = list(shape)
    if len(shape) == 1:
        return (e,)
    if not shape:
        return ()
    if shape[0].const() == 1:
        return (ZERO,) + unflat(e, shape[1:])
    rest = ONE
    for d in shape[1:]:
        rest = mul(rest, d)
    q, r = T.divsplit(e, rest)
    if q is None:
        if rest.const() == 1:
            return (e,) + tuple(ZERO for _ in shape[1:])
        q, r = T.mkfn("idiv", (e, rest)), None
        r = e - mul(q, rest)
    return (q,) + unflat(r, shape[1:])


def from_fn(shape, get, kind="f", name=None):
    shape = tuple(P(d) for d in shape)
    return Arr(Store(shape, get, name), shape, ident, kind, True, None)


def as_arr(x):
    """Scalars and nested lists as arrays; arrays as they are."""
    if isinstance(x, Arr):
        return x
    if is_scalar(x):
        p = poly(x)
        return from_fn((), lambda idx: p, kind_of(x))
    from .shim import to_array
    return to_array(x)


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool, Cond)):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, Num):
        return "i" if T.isint(x.p) else "f"
    return "f"


def eq_dim(a, b):
    if a is b:
        return True
    return C.decide("eq", a - b)


def same_shape(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        d = eq_dim(x, y)
        if d is None:
            unsupported("cannot tell whether the extents %s and %s agree" % (x, y))
        if not d:
            return False
    return True


def broadcast(s1, s2):
    n = max(len(s1), len(s2))
    a = (ONE,) * (n - len(s1)) + tuple(s1)
    b = (ONE,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x is y:
            out.append(x)
        elif x.const() == 1:
            out.append(y)
        elif y.const() == 1:
            out.append(x)
        else:
            d = eq_dim(x, y)
            if d is None:
                unsupported("cannot tell whether the extents %s and %s agree" % (x, y))
            if not d:
                raise ValueError("operands could not be broadcast together with shapes %s %s"
                                 % (s1, s2))
            out.append(x)
    return tuple(out)


def bget(x, shape):
    """Getter of x broadcast to shape."""
    if not isinstance(x, Arr):
        p = poly(x)
        return lambda idx: p
    g, xs = x.snap(), x.shape
    n, k = len(shape), len(xs)
    one = [d.const() == 1 and shape[n - k + j].const() != 1 for j, d in enumerate(xs)]
    if n == k and not any(one):
        return g
    return lambda idx: g(tuple(ZERO if o else i for o, i in zip(one, idx[n - k:])))


def _div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return T.scale(a, 1 / c)
    return mul(a, T.recip(b))


def _pow(a, b):
    c = b.const()
    if c is None:
        return T.mkfn("pow", (a, b))
    if c.denominator == 1:
        return T.power(a, int(c))
    if c == Fraction(1, 2):
        return T.mkfn("sqrt", (a,))
    if c == Fraction(-1, 2):
        return T.recip(T.mkfn("sqrt", (a,)))
    return T.mkfn("pow", (a, b))


def _mod(a, b):
    return T.mkfn("imod", (a, b)) if T.isint(a) and T.isint(b) else T.mkfn("fmod", (a, b))


def _fdiv(a, b):
    if T.isint(a) and T.isint(b):
        return T.mkfn("idiv", (a, b))
    return T.mkfn("floor", (_div(a, b),))


OPS = {"add": add, "sub": lambda a, b: a - b, "mul": mul, "div": _div, "pow": _pow,
       "mod": _mod, "fdiv": _fdiv, "or": lambda a, b: a + b - mul(a, b),
       "max": lambda a, b: T.mkfn("max", (a, b)), "min": lambda a, b: T.mkfn("min", (a, b))}
CMP = ("lt", "le", "eq", "ne")


def ew(op, a, b):
    """Elementwise binary operation."""
    if isinstance(a, Cond):
        a = Num(a.b)
    if isinstance(b, Cond):
        b = Num(b.b)
    if isinstance(a, EigMin) or isinstance(b, EigMin):
        return NotImplemented
    ta = getattr(a, "tag", None)
    if op in CMP and ta is not None and ta[0] == "eig":
        return eig_compare(op, ta[1], b)
    tb = getattr(b, "tag", None)
    if op in CMP and tb is not None and tb[0] == "eig":
        return eig_compare({"lt": "gt", "le": "ge"}.get(op, op), tb[1], a)
    if not isinstance(a, SCALAR + (Num, Arr)):
        if isinstance(a, (list, tuple)) or hasattr(a, "seq_len"):
            a = as_arr(a)
        else:
            return NotImplemented
    if not isinstance(b, SCALAR + (Num, Arr)):
        if isinstance(b, (list, tuple)) or hasattr(b, "seq_len"):
            b = as_arr(b)
        else:
            return NotImplemented
    sa = a.shape if isinstance(a, Arr) else ()
    sb = b.shape if isinstance(b, Arr) else ()
    if not sa and not sb:
        p, q = poly(a), poly(b)
        if op in CMP:
            return compare(op, p, q)
        return Num(OPS[op](p, q))
    sh = broadcast(sa, sb)
    ga, gb = bget(a, sh), bget(b, sh)
    if op in CMP:
        return from_fn(sh, lambda idx: compare(op, ga(idx), gb(idx)).b, "b")
    f = OPS[op]
    k = "f" if op == "div" or "f" in (kind_of(a), kind_of(b)) else "i"
    return from_fn(sh, lambda idx: f(ga(idx), gb(idx)), k)


class EigMin:
    """The smallest eigenvalue of a symmetric matrix: its sign says whether the matrix is
    positive definite."""

    def __init__(self, mat):
        self.mat = mat

    def positive(self, b):
        from .linalg import pd_cond
        if poly(b).const() != 0:
            unsupported("eigenvalues compared with something other than zero")
        return pd_cond(self.mat)

    def __le__(self, b):
        return ~self.positive(b)

    def __gt__(self, b):
        return self.positive(b)

    def __float__(self):
        unsupported("the value of an eigenvalue")


def ew1(f, a, kind=None):
    if isinstance(a, Arr):
        g = a.snap()
        return from_fn(a.shape, lambda idx: f(g(idx)), kind or a.kind)
    if isinstance(a, (list, tuple)) or hasattr(a, "seq_len"):
        return ew1(f, as_arr(a), kind)
    return Num(f(poly(a)))


def eig_compare(op, mat, b):
    r = from_fn((mat.shape[0],), lambda idx: unsupported("eigenvalues are opaque"), "b")
    if poly(b).const() != 0:
        unsupported("eigenvalues compared with something other than zero")
    r.tag = ("eigcmp", op, mat)
    return r


def total(x, axis=None, keepdims=False):
    if keepdims is not False:
        if not isinstance(x, Arr) or keepdims is not True:
            unsupported("keepdims")
        s, n = total(x, axis), len(x.shape)
        axes = range(n) if axis is None else [int(a) % n for a in (
            axis if isinstance(axis, (tuple, list)) else (axis,))]
        return as_arr(s)[tuple(None if k in axes else slice(None) for k in range(n))]
    if not isinstance(x, Arr):
        if is_scalar(x):
            return x
        x = as_arr(x)
    n = len(x.shape)
    if axis is None:
        axes = tuple(range(n))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(a) % n for a in axis)
    else:
        axes = (int(axis) % n,)
    g = x.snap()
    sh = x.shape
    keep = [k for k in range(n) if k not in axes]

    def get(idx):
        vs = [(T.fresh("s"), sh[k]) for k in axes]
        full = [None] * n
        for k, i in zip(keep, idx):
            full[k] = i
        for k, (v, _) in zip(axes, vs):
            full[k] = P(v)
        with C.binders(vs):
            body = g(tuple(full))
        return T.close_poly(vs, body)
    if not keep:
        return Num(get(()))
    return from_fn([sh[k] for k in keep], get, x.kind)


def opaque_reduce(name, x, axis=None):
    if axis is not None:
        unsupported("%s along an axis" % name)
    return Num(functional(name, [x], ()))


def functional(name, arrays, idx, extra=()):
    """name applied to arrays of equal dimension: an opaque value that depends on their
    contents only."""
    sh = arrays[0].shape
    ss = [T.fresh("p") for _ in sh]
    with C.binders(list(zip(ss, sh))):
        ps = [a.get(tuple(P(s) for s in ss)) for a in arrays]
    return T.mkfun(name, sh, ss, ps + [P(e) for e in extra], idx)


def any_all(x, every):
    t = getattr(x, "tag", None)
    if t is not None and t[0] == "eigcmp":
        from .linalg import pd_cond
        _, op, mat = t
        if (op == "le" and not every):              # any(<= 0)  <=> not PD
            return ~pd_cond(mat)
        if (op == "gt" and every):                  # all(> 0)   <=> PD
            return pd_cond(mat)
        unsupported("this test on eigenvalues")
    if not isinstance(x, Arr):
        return truth(x)
    sh = x.shape
    cs = [d.const() for d in sh]
    if all(c is not None and c <= 12 for c in cs):
        acc = ONE
        for t in itertools.product(*[range(int(c)) for c in cs]):
            b = x.get(tuple(T.num(k) for k in t))
            if x.kind != "b":
                b = ONE - T.bracket("eq", b)
            acc = mul(acc, b if every else ONE - b)
        return Cond(acc if every else ONE - acc)
    ss = [T.fresh("q") for _ in sh]
    with C.binders(list(zip(ss, sh))):
        b = x.get(tuple(P(s) for s in ss))
        if x.kind != "b":
            b = ONE - T.bracket("eq", b)
    c = b.const()
    nonempty = all(C.decide("le", 1 - d) is True for d in sh)
    if c is not None and (nonempty or (c == 1) == every):
        return Cond(P(int(c)))
    # decide for a generic element: all-true or all-false
    return Cond(T.mkfun("all" if every else "any", sh, ss, (b,), ()))


# -------------------------------------------------------------------- dot
def matmul(a, b):
    """a @ b: stacks of matrices are multiplied one by one."""
    if is_scalar(a) or is_scalar(b):
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a, b = as_arr(a), as_arr(b)
    na, nb = len(a.shape), len(b.shape)
    if nb <= 2:
        return dot(a, b)
    k1, k2 = a.shape[-1], b.shape[-2]
    if eq_dim(k1, k2) is not True:
        if eq_dim(k1, k2) is False:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
        unsupported("cannot tell whether %s and %s are aligned" % (a.shape, b.shape))
    lead = broadcast(a.shape[:-2], b.shape[:-2])
    nl = len(lead)
    A, B = bget(a, lead + a.shape[-2:]) if na > 1 else a.snap(), bget(b, lead + b.shape[-2:])

    def get(idx):
        v = T.fresh("k")
        ia = (idx[:nl + 1] + (P(v),)) if na > 1 else (P(v),)
        with C.binders([(v, k1)]):
            x = A(ia)
            body = mul(x, B(idx[:nl] + (P(v), idx[-1]))) if x.t else ZERO
        return T.mksum(v, k1, body)
    sh = lead + (a.shape[-2:-1] if na > 1 else ()) + b.shape[-1:]
    return from_fn(sh, get, "f" if "f" in (a.kind, b.kind) else "i")


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return ew("mul", a, b)
    a, b = as_arr(a), as_arr(b)
    na, nb = len(a.shape), len(b.shape)
    k1 = a.shape[-1]
    k2 = b.shape[-2] if nb > 1 else b.shape[0]
    if eq_dim(k1, k2) is not True:
        if eq_dim(k1, k2) is False:
            raise ValueError("shapes not aligned: %s and %s" % (a.shape, b.shape))
        unsupported("cannot tell whether %s and %s are aligned" % (a.shape, b.shape))
    ga, gb = a.snap(), b.snap()
    sh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if nb > 1 else ())

    def get(idx):
        v = T.fresh("k")
        ia = idx[:na - 1] + (P(v),)
        r = idx[na - 1:]
        ib = (r[:-1] + (P(v),) + r[-1:]) if nb > 1 else (P(v),)
        with C.binders([(v, k1)]):
            x = ga(ia)
            body = mul(x, gb(ib)) if x.t else ZERO
        return T.mksum(v, k1, body)
    kd = "f" if "f" in (a.kind, b.kind) else "i"
    if not sh:
        return Num(get(()))
    return from_fn(sh, get, kd)


# ---------------------------------------------------------------- selection
class View:
    """Result of basic indexing: a rectangular view."""

    def __init__(self, arr, shape, mp, inv, contig, keep0):
        self.src, self.shape, self.mp = arr, shape, mp
        self.inv, self.contig, self.keep0 = inv, contig, keep0

    def arr(self):
        return Arr(self.src.store, self.shape, self.mp, self.src.kind, self.contig, self.inv)

    def write(self, val):
        a = self.src
        if isinstance(val, (list, tuple)) or hasattr(val, "seq_len"):
            val = as_arr(val)
        vs = val.shape if isinstance(val, Arr) else ()
        # leading unit dimensions of the value may be dropped
        while len(vs) > len(self.shape) and vs and vs[0].const() == 1:
            val = val[0]
            vs = val.shape if isinstance(val, Arr) else ()
        sh = broadcast(vs, self.shape)
        if not same_shape(sh, self.shape):
            raise ValueError("could not broadcast input array from shape %s into shape %s"
                             % (vs, self.shape))
        if a.kind == "i" and kind_of(val) == "f":
            val = cast(val, "int")
        g = bget(val, self.shape)
        inv = self.inv
        if inv is None:
            unsupported("write through this view")
        a.store.write(lambda idx: inv(idx)[0], lambda idx: g(inv(idx)[1]),
                      self.loc() if hasattr(self, "loc") else None)

    def loc(self):
        """Fixed first store index of the region, if it has one."""
        return getattr(self, "first", None)


class Gather:
    """Fancy indexing with integer arrays on some axes (or a mask)."""

    def __init__(self, arr, shape, mp, write_inv):
        self.src, self.shape, self.mp, self.winv = arr, shape, mp, write_inv

    def read(self):
        n, mp = self.src.store.cur, self.mp
        m = self.src.map
        return from_fn(self.shape, lambda idx: n.read(m(mp(idx))), self.src.kind)

    def write(self, val):
        a = self.src
        if isinstance(val, (list, tuple)) or hasattr(val, "seq_len"):
            val = as_arr(val)
        if self.winv is None or a.map is not ident:
            unsupported("write through this index array")
        vs = val.shape if isinstance(val, Arr) else ()
        sh = broadcast(vs, self.shape)
        if not same_shape(sh, self.shape):
            raise ValueError("shape mismatch: value array could not be broadcast")
        g = bget(val, self.shape)
        if len(self.winv) == 2:
            lits, back = self.winv
            a.store.write(lits, lambda idx: g(back(idx)), None)
            return
        var, ext, eqs, build = self.winv
        # new content: sum_j [store idx == I(j)] val(j, ..) + (1 - sum_j [..]) old
        old = a.store.cur
        JOURNAL.append((a.store, old))

        def get(idx):
            j = T.fresh("j")
            with C.binders([(j, ext)]):
                w = T.bracket("eq", eqs(idx, P(j)))
                with C.assume([("eq", eqs(idx, P(j)))]):
                    v = g(build(idx, P(j)))
                body = mul(w, v)
            return T.mksum(j, ext, body) + mul(ONE - T.mksum(j, ext, w), old.read(idx))
        n = Node(get=get)
        n.tag = ("gather", old)
        a.store.cur = n


def norm_index(i, ext):
    """A possibly negative index as a non-negative one; checks the range."""
    p = i
    c = p.const()
    if c is not None and c < 0:
        p = p + ext
    elif c is None and C.decide("le", neg(p)) is not True:
        if C.decide("lt", p) is None and C.decide("le", neg(p) - ext) is True and \
                C.decide("lt", p - ext) is True:
            return T.mkfn("imod", (p, P(ext)))
        if choose("lt", p):
            p = p + ext
    if not choose("le", neg(p)) or not choose("lt", p - ext):
        raise IndexError("index %s is out of bounds for axis with size %s" % (
            T.show(i), T.show(ext)))
    return p


def choose(op, p):
    """p op 0, by a fork of the path if the facts do not settle it."""
    d = C.decide(op, p)
    if d is None:
        if not PATHS:
            unsupported("%s %s 0 is not settled" % (T.show(p), op))
        return bool(Cond(T.bracket(op, p), (op, p)))
    return d


def slice_range(s, ext):
    """(start, length, step) of a slice on an axis of the given extent."""
    st = s.step
    st = 1 if st is None else int(st.__index__())
    if st not in (1, -1):
        if st <= 0:
            unsupported("slice step %d" % st)

    def bound(x, default, lo, hi):
        if x is None:
            return default
        p = poly(x)
        c = p.const()
        if (c is not None and c < 0) or (c is None and C.decide("le", neg(p)) is not True
                                         and choose("lt", p)):
            p = p + ext
        if C.decide("le", lo - p) is not True:
            if C.decide("le", p - lo) is True or not choose("le", lo - p):
                return lo
        if C.decide("le", p - hi) is not True:
            if C.decide("le", hi - p) is True or not choose("le", p - hi):
                return hi
        return p
    if st > 0:
        a = bound(s.start, ZERO, ZERO, ext)
        b = bound(s.stop, ext, ZERO, ext)
        n = b - a
    else:
        a = bound(s.start, ext - 1, P(-1), ext - 1)
        b = bound(s.stop, P(-1), P(-1), ext - 1)
        n = a - b
    if C.decide("le", neg(n)) is not True:
        if C.decide("le", n) is True:
            n = ZERO
        elif not bool(Cond(T.bracket("le", neg(n)), ("le", neg(n)))):
            n = ZERO
    if st > 1:
        n = T.mkfn("idiv", (n + (st - 1), P(st)))
    return a, n, st


def select(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    # booleans / lists / arrays
    for k, x in enumerate(key):
        if isinstance(x, list) or hasattr(x, "seq_len"):
            key[k] = as_arr(x)
    nd = len(a.shape)
    used = sum(1 for x in key if x is not None and x is not Ellipsis)
    if any(isinstance(x, Arr) and x.kind == "b" and len(x.shape) > 1 for x in key):
        unsupported("multi-dimensional mask")
    if used > nd:
        raise IndexError("too many indices for array")
    if any(x is Ellipsis for x in key):
        i = next(i for i, x in enumerate(key) if x is Ellipsis)
        key[i:i + 1] = [slice(None)] * (nd - used)
    else:
        key += [slice(None)] * (nd - used)
    if any(isinstance(x, Arr) and x.shape for x in key):
        return fancy(a, key)
    # basic
    items, shape, ax = [], [], 0
    for x in key:
        if x is None:
            items.append(("new",))
            shape.append(ONE)
            continue
        ext = a.shape[ax]
        if isinstance(x, slice):
            st, n, step = slice_range(x, ext)
            items.append(("slice", st, n, step))
            shape.append(n)
        else:
            if isinstance(x, Cond) or isinstance(x, bool):
                unsupported("boolean scalar index")
            if isinstance(x, (float, Fraction)):
                raise IndexError("only integers are valid indices")
            items.append(("at", norm_index(poly(x), ext)))
        ax += 1
    full = all(it[0] == "slice" and it[1].const() == 0 and it[3] == 1 and it[2] is e
               for it, e in zip(items, a.shape)) and len(items) == nd
    m = a.map

    def mp(idx):
        out, k = [], 0
        for it in items:
            if it[0] == "new":
                k += 1
            elif it[0] == "at":
                out.append(it[1])
            else:
                i = idx[k]
                k += 1
                out.append(it[1] + i if it[3] == 1 else it[1] + T.scale(i, it[3]))
        return m(tuple(out))
    base = a.inv
    if base is None and a.map is not ident:
        inv = None
    else:
        def inv(sidx):
            if base is None:
                lits, v = [], sidx
            else:
                lits, v = base(sidx)
            lits = list(lits)
            out, k = [], 0
            for it in items:
                if it[0] == "new":
                    out.append(ZERO)
                    continue
                i = v[k]
                k += 1
                if it[0] == "at":
                    lits.append(("eq", i - it[1]))
                else:
                    _, st, n, step = it
                    if step == 1:
                        if st.const() != 0:
                            lits.append(("le", st - i))
                        lits.append(("lt", i - st - n))
                        out.append(i - st)
                    elif step == -1:
                        lits.append(("le", i - st))
                        lits.append(("lt", st - i - n))
                        out.append(st - i)
                    else:
                        d = i - st
                        lits.append(("eq", T.mkfn("imod", (d, P(step)))))
                        lits.append(("le", neg(d)))
                        q = T.mkfn("idiv", (d, P(step)))
                        lits.append(("lt", q - n))
                        out.append(q)
            return lits, tuple(out)
    # contiguous: some leading fixed indices, then one unit-step slice, then full slices
    contig = a.contig
    if contig:
        seen = False
        for it, e in zip(items, list(a.shape)):
            if it[0] == "new":
                contig = False
                break
            if it[0] == "at":
                if seen:
                    contig = False
            else:
                isfull = it[1].const() == 0 and it[2] is e and it[3] == 1
                if seen and not isfull:
                    contig = False
                if it[3] != 1:
                    contig = False
                seen = True
    v = View(a, tuple(shape), mp, inv, contig, False)
    v.keep0 = bool(shape) or False
    return v


def fancy(a, key):
    """Integer index arrays (broadcast together) and slices / integers."""
    arrs = [(k, x) for k, x in enumerate(key) if isinstance(x, Arr)]
    if any(x is None for x in key):
        unsupported("newaxis with index arrays")
    for n, (k, x) in enumerate(arrs):
        if x.kind == "b":
            from .shim import mask_positions
            arrs[n] = (k, mask_positions(x, a.shape[k]))
            key[k] = arrs[n][1]
    sh = ()
    for _, x in arrs:
        sh = broadcast(sh, x.shape)
    ks = [k for k, _ in arrs]
    # integers take part in the advanced index
    ints = [k for k, x in enumerate(key) if not isinstance(x, (slice, Arr))]
    adv = sorted(ks + ints)
    if adv != list(range(adv[0], adv[-1] + 1)):
        unsupported("separated index arrays")
    pos = adv[0]
    gets = {}
    for k, x in arrs:
        g = bget(x, sh)
        ext = a.shape[k]
        _check_gather(g, sh, ext)
        gets[k] = lambda idx, g=g, ext=ext: _neg_fix(g(idx), ext)
    for k in ints:
        p = norm_index(poly(key[k]), a.shape[k])
        gets[k] = lambda idx, p=p: p
    sl = {k: slice_range(x, a.shape[k]) for k, x in enumerate(key) if isinstance(x, slice)}
    shape = [sl[k][1] for k in range(pos)] + list(sh) + \
        [sl[k][1] for k in range(adv[-1] + 1, len(key))]
    ns = len(sh)

    def mp(idx):
        out = []
        ai = idx[pos:pos + ns]
        for k in range(len(key)):
            if k in gets:
                out.append(gets[k](ai))
            else:
                i = idx[k] if k < pos else idx[k - len(adv) + ns]
                st, _, step = sl[k]
                out.append(st + T.scale(i, step))
        return tuple(out)
    winv = None
    if ns == 1 and all(sl[k][0].const() == 0 and sl[k][1] is a.shape[k] for k in sl):
        winv = affine_write(gets, [k for k, _ in arrs], sh[0], pos)
    if winv is None and len(arrs) == 1 and ns == 1 and not ints and distinct(arrs[0][1]):
        k0 = arrs[0][0]
        if all(sl[k][0].const() == 0 and sl[k][1] is a.shape[k] for k in sl):
            g0 = gets[k0]
            winv = (None, sh[0], lambda idx, j: idx[k0] - g0((j,)),
                    lambda idx, j: idx[:k0] + (j,) + idx[k0 + 1:])
    return Gather(a, tuple(shape), mp, winv)


def affine_write(gets, arrs, ext, pos):
    """Index arrays one of which is c +- j: entry j is written where that index says."""
    from .loops import linear
    for k0 in arrs:
        v = T.fresh("v")
        with C.binders([(v, ext)]):
            lin = linear(gets[k0]((P(v),)), v)
        if lin is None or lin[0] not in (1, -1):
            continue

        def at(idx, c=lin[0], off=lin[1]):
            return T.scale(idx[k0] - off, c)

        def lits(idx):
            j = at(idx)
            out = [("le", neg(j)), ("lt", j - ext)]
            for k, g in gets.items():
                if k != k0:
                    with C.assume(out[:2]):
                        out.append(("eq", idx[k] - g((j,))))
            return out
        return lits, lambda idx: idx[:pos] + (at(idx),) + idx[pos + len(gets):]
    return None


def _check_gather(g, sh, ext):
    vs = [(T.fresh("g"), d) for d in sh]
    with C.binders(vs):
        p = _neg_fix(g(tuple(P(v) for v, _ in vs)), ext)
        lo, hi = C.decide("le", neg(p)), C.decide("lt", p - ext)
    if lo is False or hi is False:
        raise IndexError("index array out of bounds")
    if lo is None or hi is None:
        unsupported("index array %s may be out of range (extent %s)" % (T.show(p), T.show(ext)))


def _neg_fix(p, ext):
    c = p.const()
    if c is not None:
        return p + ext if c < 0 else p
    if C.decide("lt", p) is True:
        return p + ext
    return p


def increasing(x):
    """Is the 1-D integer array x strictly increasing (so that writes do not collide)?"""
    v = T.fresh("v")
    with C.binders([(v, x.shape[0] - 1)]):
        d = x.get((P(v),)) - x.get((P(v) + 1,))
        return C.decide("lt", d) is True or T.bracket("lt", d).const() == 1


def distinct(x):
    """Are the entries of the 1-D integer array x different (so that writes do not collide)?"""
    if increasing(x):
        return True
    v, u = T.fresh("v"), T.fresh("v")
    with C.binders([(v, x.shape[0]), (u, x.shape[0])]), C.assume([("ne", P(v) - P(u))]):
        d = x.get((P(v),)) - x.get((P(u),))
        return C.decide("eq", d) is False or T.bracket("eq", d).const() == 0


for _c in (Num, Cond, Arr):
    for _n, _f in list(vars(_c).items()):
        if callable(_f) and getattr(_f, "__code__", None) and not _n.startswith("__"):
            setattr(_c, _n, guarded(_f, _n))
