"""Lists of possibly symbolic length, dicts and objects with an undo journal, iteration."""
from . import ctx as C
from . import terms as T
from . import val as V
from .terms import P, ONE, ZERO
from .val import Arr, Cond, Num, JOURNAL, from_fn, poly, unsupported


def freeze(v, q):
    """A value that depends on the symbol q as a function of an index Poly."""
    if isinstance(v, (Num, Cond)):
        e = poly(v)
        if q not in T.free(e):
            return lambda j: v
        if isinstance(v, Cond):
            return lambda j: Cond(T.subst(e, {q: j}))
        return lambda j: Num(T.subst(e, {q: j}))
    if isinstance(v, Arr):
        g, facts = v.snap(), C.since(q)

        def at(j):
            def get(idx):
                with C.assume(facts):
                    e = g(idx)
                return T.subst(e, {q: j})
            return from_fn([T.subst(d, {q: j}) for d in v.shape], get, v.kind)
        return at
    if isinstance(v, tuple):
        fs = [freeze(x, q) for x in v]
        return lambda j: tuple(f(j) for f in fs)
    if isinstance(v, SList):
        ch = []
        for c in v.chunks:
            if isinstance(c, Seq):
                ch.append(_freeze_seq(c, q))
            else:
                fs = [freeze(x, q) for x in c]
                ch.append(lambda j, fs=fs: [f(j) for f in fs])

        def at(j):
            r = SList()
            r._set([c(j) for c in ch])
            return r
        return at
    if isinstance(v, (int, float, str, type(None))) or callable(v):
        return lambda j: v
    unsupported("value of type %s depends on a symbolic iteration" % type(v).__name__)


def _freeze_seq(c, q):
    """The same for a run of items of symbolic length."""
    k = T.fresh("c")
    mark = C.mark()
    try:
        C.learn([("le", T.neg(P(k))), ("le", P(k) - c.count + 1)])
        f = freeze(c.item(P(k)), q)
    finally:
        C.release(mark)
    n = c.count
    return lambda j: Seq(T.subst(n, {q: j}), lambda i: freeze(f(j), k)(i))


class Seq:
    """Symbolic-length chunk: count and item(j)."""
    __slots__ = ("count", "item")

    def __init__(self, count, item):
        self.count, self.item = P(count), item


class ListChange:
    """Journal entry: the chunks of a list before a change."""

    def __init__(self, o):
        self.o, self.old = o, o.chunks

    def __call__(self):
        self.o.chunks = self.old


class SList:
    """A Python list: concrete chunks and symbolic-length chunks."""
    __slots__ = ("chunks", "born")
    seq_len = True
    __array_priority__ = 2000

    def __init__(self, chunks=()):
        self.chunks = [c if isinstance(c, Seq) else list(c) for c in chunks]
        self.born = next(V.SERIAL)

    # --- structure
    def _set(self, chunks):
        JOURNAL.append(ListChange(self))
        out = []
        for c in chunks:
            if isinstance(c, Seq):
                k = c.count.const()
                if k is not None and k <= 64:
                    c = [c.item(T.num(j)) for j in range(int(k))]
                else:
                    out.append(c)
                    continue
            if out and not isinstance(out[-1], Seq):
                out[-1] = out[-1] + list(c)
            else:
                out.append(list(c))
        self.chunks = out

    @property
    def concrete(self):
        return not any(isinstance(c, Seq) for c in self.chunks)

    def items(self):
        if not self.concrete:
            unsupported("iteration over a list of symbolic length")
        return [x for c in self.chunks for x in c]

    def count(self, *a):
        if a:
            return self.items().count(*a)
        n = ZERO
        for c in self.chunks:
            n = n + (c.count if isinstance(c, Seq) else len(c))
        return n

    def get(self, j):
        """Item at a symbolic non-negative position; scalars only across chunks."""
        if len(self.chunks) == 1:
            c = self.chunks[0]
            if isinstance(c, Seq):
                return c.item(j)
        k = j.const()
        base = ZERO
        parts = []
        for c in self.chunks:
            n = c.count if isinstance(c, Seq) else T.num(len(c))
            d = C.decide("lt", j - base - n)
            if d is True or c is self.chunks[-1]:
                parts.append((c, base, None, n))
                break
            if d is None:
                parts.append((c, base, T.bracket("lt", j - base - n), n))
            base = base + n
        if len(parts) == 1:
            return chunk_item(*parts[0][:2], j)
        out = []
        for c, b, w, n in parts:
            fs = [("le", b - j)] + ([("lt", j - b - n)] if w is not None else [])
            if not C.consistent(fs):
                continue
            with C.assume(fs):
                out.append((chunk_item(c, b, j), w))
        return merge_items(out)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.concrete:
                k = slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])
                return SList([self.items()[k]])
            a, n, st = V.slice_range(k, self.count())
            return SList([Seq(n, lambda j: self.get(a + T.scale(j, st)))])
        p = poly(k)
        if self.concrete and p.const() is not None:
            return self.items()[int(p.const())]
        return self.get(V.norm_index(p, self.count()))

    def __setitem__(self, k, v):
        xs = self.items()
        if isinstance(k, slice):
            k = slice(*[None if x is None else int(x) for x in (k.start, k.stop, k.step)])
            xs[k] = list(V_iter(v))
        else:
            xs[int(k)] = v
        self._set([xs])

    def __delitem__(self, k):
        xs = self.items()
        del xs[int(k)]
        self._set([xs])

    def append(self, x):
        self._set(self.chunks + [[x]])

    def extend(self, o):
        self._set(self.chunks + aslist(o).chunks)

    def insert(self, k, x):
        if not self.concrete:
            self._set(self[:k].chunks + [[x]] + self[k:].chunks)
            return
        xs = self.items()
        xs.insert(int(k), x)
        self._set([xs])

    def pop(self, k=-1):
        xs = self.items()
        r = xs.pop(int(k))
        self._set([xs])
        return r

    def sort(self, **kw):
        self._set([sorted(self.items(), **kw)])

    def reverse(self):
        self._set([self.items()[::-1]])

    def index(self, *a):
        return self.items().index(*a)

    def copy(self):
        return SList(self.chunks)

    def tolist(self):
        return self.copy()

    def __add__(self, o):
        if isinstance(o, (SList, list)):
            return SList(self.chunks + aslist(o).chunks)
        return V.ew("add", self, o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __radd__(self, o):
        if isinstance(o, (SList, list)):
            return SList(aslist(o).chunks + self.chunks)
        return V.ew("add", o, self)

    def __mul__(self, n):
        if isinstance(n, Arr):
            return V.ew("mul", self, n)
        p = poly(n)
        if p.const() is not None:
            r = SList()
            r._set(self.chunks * int(p.const()))
            return r
        if len(self.items()) == 1:
            x = self.items()[0]
            r = SList()
            r._set([Seq(p, lambda j: x)])
            return r
        unsupported("list times a symbolic number")
    __rmul__ = __mul__

    def __sub__(self, o):
        if isinstance(o, (Arr, Num)):
            return V.ew("sub", self, o)
        return NotImplemented

    def __iter__(self):
        return iter(self.items())

    def __len__(self):
        c = self.count().const()
        if c is None:
            unsupported("concrete length of a list of symbolic length")
        return int(c)

    def __bool__(self):
        return bool(V.compare("lt", ZERO, self.count()))

    def __contains__(self, x):
        return any(bool(x == y) for y in self.items())

    def __eq__(self, o):
        if isinstance(o, (SList, list)):
            return len(self) == len(o) and all(bool(a == b) for a, b in zip(self, o))
        return False

    def __hash__(self):
        raise TypeError("unhashable type: 'list'")

    def __str__(self):
        return "[..]"
    __repr__ = __str__

    def __format__(self, spec):
        return "[..]"


def still(c):
    """The items of a chunk as they are now."""
    q = T.fresh("q")
    with C.binders([(q, c.count)]):
        v = c.item(P(q))
    if not isinstance(v, Arr) or v.store.fixed:
        return c.item
    n, m = v.store.cur, v.map

    def item(j):
        def get(idx):
            return T.subst(n.read(tuple(T.subst(e, {q: j}) for e in m(idx))), {q: j})
        return from_fn([T.subst(d, {q: j}) for d in v.shape], get, v.kind)
    return item


def aslist(o):
    if isinstance(o, SList):
        return o
    if isinstance(o, Arr):
        return SList([Seq(o.shape[0], lambda j: o[Num(j)])])
    if isinstance(o, SIter):
        return o.to_list()
    return SList([list(o)])


def chunk_item(c, base, j):
    if isinstance(c, Seq):
        return c.item(j - base)
    k = (j - base).const()
    if k is not None:
        return c[int(k)]
    return merge_items([(x, T.bracket("eq", j - base - i) if i < len(c) - 1 else None)
                        for i, x in enumerate(c)])


def merge_items(ws):
    """Value selected by the first weight that is one (the last has none)."""
    vals = [v for v, _ in ws]
    if all(v is vals[0] for v in vals):
        return vals[0]
    if all(V.is_scalar(v) for v in vals):
        r = poly(vals[-1])
        for v, w in reversed(ws[:-1]):
            r = T.mul(w, poly(v)) + T.mul(ONE - w, r)
        return Num(r)
    if all(isinstance(v, (Arr, SList)) for v in vals):
        arrs = [V.as_arr(v) for v in vals]
        if not all(V.same_shape(a.shape, arrs[0].shape) for a in arrs):
            unsupported("list items of different shapes at a symbolic position")

        def get(idx):
            r = arrs[-1].get(idx)
            for a, (_, w) in zip(reversed(arrs[:-1]), reversed(ws[:-1])):
                r = T.mul(w, a.get(idx)) + T.mul(ONE - w, r)
            return r
        return from_fn(arrs[0].shape, get, arrs[0].kind)
    unsupported("list items of different kinds at a symbolic position")


def to_array(x, kind=None):
    """Nested lists / tuples to an array."""
    if isinstance(x, Arr):
        return x
    if V.is_scalar(x):
        return V.as_arr(x)
    if hasattr(x, "vg_array"):
        return x.vg_array()
    if isinstance(x, SIter):
        x = x.to_list()
    if isinstance(x, (list, tuple)):
        x = SList([list(x)])
    if not isinstance(x, SList):
        unsupported("array from %s" % type(x).__name__)
    n = x.count()
    if n.const() == 0:
        return from_fn((ZERO,), lambda idx: ZERO, "f")
    # shape from a sample item
    samples = []
    for c in x.chunks:
        if isinstance(c, Seq):
            q = T.fresh("q")
            with C.binders([(q, c.count)]):
                samples.append(c.item(P(q)))
        else:
            samples.extend(c)
    if any(s is None or isinstance(s, str) for s in samples):
        unsupported("array of objects")
    if all(V.is_scalar(s) for s in samples):
        ks = {V.kind_of(s) for s in samples}
        k = "f" if "f" in ks else "i" if "i" in ks else "b"
        return from_fn((n,), lambda idx: poly(x.get(idx[0])), k)
    ss = [to_array(s) for s in samples]
    for s in ss[1:]:
        if not V.same_shape(s.shape, ss[0].shape):
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
    # snapshot of the contents
    snap = SList([Seq(c.count, still(c)) if isinstance(c, Seq) else
                  [to_array(i).copy() if not V.is_scalar(i) else i for i in c]
                  for c in x.chunks])

    def get(idx):
        v = snap.get(idx[0])
        return to_array(v).get(idx[1:])
    ks = {s.kind for s in ss}
    return from_fn((n,) + tuple(ss[0].shape), get, "f" if "f" in ks else "i")


# ------------------------------------------------------------------ iteration
class SIter:
    """Iterable of count items; item(j) for a Poly j."""

    def __init__(self, count, item):
        self.count, self.item = P(count), item

    @property
    def concrete(self):
        return self.count.const() is not None

    def __iter__(self):
        c = self.count.const()
        if c is None:
            unsupported("iteration over a symbolic range outside a loop")
        return iter([self.item(T.num(j)) for j in range(max(int(c), 0))])

    def to_list(self):
        r = SList()
        r._set([Seq(self.count, self.item)])
        return r

    def __len__(self):
        c = self.count.const()
        if c is None:
            unsupported("concrete length of a symbolic range")
        return int(c)

    def __getitem__(self, k):
        return self.to_list()[k]


class Range(SIter):
    def __init__(self, a, n, st):
        self.start, self.step = a, st
        super().__init__(n, lambda j: Num(a + T.scale(j, st)))

    def __iter__(self):
        if self.concrete and self.start.const() is not None:
            a, n = int(self.start.const()), int(self.count.const())
            return iter(range(a, a + n * self.step, self.step))
        return super().__iter__()


def srange(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    ps = [poly(x) for x in a]
    for p in ps:
        if not T.isint(p) and p.const() is None:
            unsupported("range over a value not known to be an integer")
    a0, b, st = (ZERO, ps[0], 1) if len(ps) == 1 else (ps[0], ps[1], 1)
    if len(ps) == 3:
        c = ps[2].const()
        if c is None:
            unsupported("symbolic range step")
        st = int(c)
    n = (b - a0) if st > 0 else (a0 - b)
    if abs(st) != 1:
        n = T.mkfn("idiv", (n + (abs(st) - 1), P(abs(st))))
    if C.decide("le", T.neg(n)) is not True:
        if not bool(V.compare("le", ZERO, n)):
            n = ZERO
    if a0.const() is not None and n.const() is not None:
        return range(int(a0.const()), int(a0.const()) + int(n.const()) * st, st)
    return Range(a0, n, st)


def siter(x):
    """x as a Python iterable of concrete length, or an SIter."""
    if isinstance(x, SIter):
        return x
    if isinstance(x, Arr):
        if not x.shape:
            raise TypeError("iteration over a 0-d array")
        if x.shape[0].const() is not None:
            return list(iter(x))
        return SIter(x.shape[0], lambda j: x[Num(j)])
    if isinstance(x, SList):
        if x.concrete:
            return x.items()
        return SIter(x.count(), lambda j: x.get(j))
    if isinstance(x, range) and len(x) > 64:
        return Range(T.num(x.start), T.num(len(x)), x.step)
    return x


def V_iter(x):
    return iter(siter(x))


def senumerate(x, start=0):
    it = siter(x)
    if isinstance(it, SIter):
        return SIter(it.count, lambda j: (Num(j + poly(start)), it.item(j)))
    return enumerate(it, int(start))


def szip(*xs, **kw):
    its = [siter(x) for x in xs]
    if any(isinstance(i, SIter) for i in its):
        s = [i if isinstance(i, SIter) else siter(SList([list(i)])) for i in its]
        s = [i if isinstance(i, SIter) else SIter(T.num(len(i)), lambda j, i=i: SList([i]).get(j))
             for i in s]
        n = s[0].count
        for i in s[1:]:
            if C.decide("eq", i.count - n) is not True:
                if C.decide("le", n - i.count) is True:
                    continue
                if C.decide("le", i.count - n) is True:
                    n = i.count
                else:
                    unsupported("zip of sequences of different lengths")
        return SIter(n, lambda j: tuple(i.item(j) for i in s))
    return zip(*its)


def sreversed(x):
    it = siter(x)
    if isinstance(it, SIter):
        n = it.count
        return SIter(n, lambda j: it.item(n - 1 - j))
    return reversed(list(it))


def plain_key(k):
    """The key with constant numbers as Python numbers."""
    if isinstance(k, Num):
        c = k.p.const()
        return k if c is None else int(c) if c.denominator == 1 else c
    if isinstance(k, tuple):
        return tuple(plain_key(x) for x in k)
    return k


def symbolic(k):
    return isinstance(k, Num) or isinstance(k, tuple) and any(symbolic(x) for x in k)


def same_key(a, b):
    """Whether two keys are equal; forks where that is open."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
            all(same_key(x, y) for x, y in zip(a, b))
    if isinstance(a, Num) or isinstance(b, Num):
        if not V.is_scalar(a) or not V.is_scalar(b):
            return False
        return bool(V.ew("eq", a, b))
    return a == b


class SDict(dict):
    """dict whose changes are journaled; keys may be symbolic."""

    def find(self, k):
        """The stored key equal to k, or k itself."""
        k = plain_key(k)
        if not symbolic(k) and not any(symbolic(q) for q in dict.keys(self)):
            return k
        for q in dict.keys(self):
            if q is k:
                return q
        for q in list(dict.keys(self)):
            if same_key(q, k):
                return q
        return k

    def __contains__(self, k):
        return dict.__contains__(self, self.find(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, self.find(k))

    def get(self, k, d=None):
        return dict.get(self, self.find(k), d)

    def __setitem__(self, k, v):
        k = self.find(k)
        had, old = dict.__contains__(self, k), dict.get(self, k)
        JOURNAL.append(DictChange(self, k, had, old))
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        k = self.find(k)
        old = dict.__getitem__(self, k)
        JOURNAL.append(DictChange(self, k, True, old))
        dict.__delitem__(self, k)

    def update(self, *a, **kw):
        for x in a:
            for k, v in (x.items() if hasattr(x, "keys") else x):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def copy(self):
        return SDict(self)

    __hash__ = object.__hash__


class DictChange:
    def __init__(self, d, k, had, old):
        self.d, self.k, self.had, self.old = d, k, had, old

    def __call__(self):
        if self.had:
            dict.__setitem__(self.d, self.k, self.old)
        else:
            dict.pop(self.d, self.k, None)


class AttrChange:
    def __init__(self, o, n):
        self.o, self.n = o, n
        self.had = hasattr(o, "__dict__") and n in o.__dict__ or _slot_has(o, n)
        self.old = getattr(o, n) if self.had else None

    def __call__(self):
        if self.had:
            object.__setattr__(self.o, self.n, self.old)
        else:
            object.__delattr__(self.o, self.n)

    def now(self):
        return getattr(self.o, self.n, None)


class ClassChange(AttrChange):
    """A change of a class attribute."""

    def __init__(self, o, n):
        self.o, self.n, self.had = o, n, n in vars(o)
        self.old = vars(o).get(n)

    def __call__(self):
        if self.had:
            type.__setattr__(self.o, self.n, self.old)
        elif self.n in vars(self.o):
            type.__delattr__(self.o, self.n)


def _slot_has(o, n):
    d = getattr(type(o), n, None)
    if d is None or isinstance(d, property):
        return False
    try:
        object.__getattribute__(o, n)
        return True
    except AttributeError:
        return False


def sym_setattr(o, n, v):
    d = getattr(type(o), n, None)
    if isinstance(o, type):
        JOURNAL.append(ClassChange(o, n))
        type.__setattr__(o, n, v)
        return
    if isinstance(d, property) or isinstance(o, Arr) or not hasattr(type(o), "__mro__"):
        setattr(o, n, v)
        return
    JOURNAL.append(AttrChange(o, n))
    setattr(o, n, v)
