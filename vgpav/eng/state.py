"""State that outlives a call.

Every function and method of /repo is watched when it is entered from a contract (not when
one of them calls another).  What a call changes outside its own locals (attributes of the
receiver and of what it holds, class attributes, containers and defaults of modules) is
recorded; the contract is then proved again from an initial state in which all of it is
arbitrary, which stands for every history of earlier calls.  What a call returns must not
share memory with what it keeps.
"""
import functools
import types

from . import terms as T
from . import val as V
from .seq import AttrChange, ClassChange, DictChange, ListChange, SDict, SList
from .val import Arr, Cond, JOURNAL, Node, Num

ACCUMULATE = ("SCG", "Simulation")     # classes whose own state is what they are for


class Kept(Exception):
    """A kind of state that the rule does not cover."""


def repo_class(c):
    return isinstance(c, type) and (c.__module__.startswith("src") or
                                    c.__module__ == "vgpa_main")


def slots(o):
    out = {}
    for c in type(o).__mro__:
        names = c.__dict__.get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            try:
                out[n] = object.__getattribute__(o, n)
            except AttributeError:
                pass
    out.update(getattr(o, "__dict__", {}))
    return out


class Reach:
    """Objects reachable from the receiver and from the modules, each with a path."""

    def __init__(self, world, me):
        self.objs, self.stores, self.native = {}, {}, {}
        self.names = {}
        for name, m in world.mods.items():
            ns = getattr(m, "ns", None)
            if ns is None:
                continue
            self.names[name] = (ns, {k: v for k, v in ns.items()})
            for k, v in list(ns.items()):
                if not k.startswith("__"):
                    self.walk(v, "%s:%s" % (name, k), 0)
        if me is not None:
            self.walk(me, "self", 0)

    def walk(self, o, path, depth):
        if depth > 6 or id(o) in self.objs:
            return
        if isinstance(o, Arr):
            self.stores.setdefault(id(o.store), (path, o))
            return
        if isinstance(o, (Num, Cond, str, int, float, type(None))):
            return
        if isinstance(o, types.FunctionType):
            o = getattr(o, "__wrapped__", o)
            self.objs[id(o)] = (path, o)
            for k, d in enumerate(o.__defaults__ or ()):
                self.walk(d, "%s.default%d" % (path, k), depth + 1)
            for k, d in (o.__kwdefaults__ or {}).items():
                self.walk(d, "%s.default_%s" % (path, k), depth + 1)
            for k, d in o.__dict__.items():
                if k != "__wrapped__":
                    self.walk(d, "%s.%s" % (path, k), depth + 1)
            return
        if isinstance(o, type):
            if not repo_class(o):
                return
            self.objs[id(o)] = (path, o)
            for k, d in list(vars(o).items()):
                if not k.startswith("__"):
                    f = d
                    if isinstance(d, property):
                        f = d.fget
                    elif isinstance(d, (staticmethod, classmethod)):
                        f = d.__func__
                    self.walk(f, "%s.%s" % (path, k), depth + 1)
            for f in ("__init__", "__call__"):
                if isinstance(vars(o).get(f), types.FunctionType):
                    self.walk(vars(o)[f], "%s.%s" % (path, f), depth + 1)
            return
        self.objs[id(o)] = (path, o)
        if isinstance(o, SDict):
            for k, d in o.items():
                self.walk(d, "%s[%r]" % (path, k if isinstance(k, (str, int)) else "?"), depth + 1)
        elif isinstance(o, SList):
            for c in o.chunks:
                for k, d in enumerate(c if isinstance(c, list) else ()):
                    self.walk(d, "%s[%d]" % (path, k), depth + 1)
        elif isinstance(o, tuple):
            for k, d in enumerate(o):
                self.walk(d, "%s[%d]" % (path, k), depth + 1)
        elif isinstance(o, (dict, list, set)):
            self.native[id(o)] = (path, o, o.copy())
            for k, d in enumerate(o.values() if isinstance(o, dict) else o):
                self.walk(d, "%s[%d]" % (path, k), depth + 1)
        elif repo_class(type(o)):
            for k, d in slots(o).items():
                self.walk(d, "%s.%s" % (path, k), depth + 1)


def stores_of(v, out=None, depth=0):
    out = {} if out is None else out
    if depth > 6:
        return out
    if isinstance(v, Arr):
        out[id(v.store)] = v
    elif isinstance(v, SList):
        for c in v.chunks:
            if isinstance(c, list):
                for x in c:
                    stores_of(x, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            stores_of(x, out, depth + 1)
    elif isinstance(v, (tuple, list)):
        for x in v:
            stores_of(x, out, depth + 1)
    return out


def same_contents(a, old):
    from . import ctx as C
    from .prove import is_zero
    from .terms import P
    if a.store.cur is old:
        return True
    try:
        ss = [T.fresh("i") for _ in a.shape]
        with C.binders(list(zip(ss, a.shape))):
            idx = tuple(P(s) for s in ss)
            return bool(is_zero(a.get(idx) - old.read(a.map(idx))))
    except (V.NotUnderstood, T.Unsupported):
        return False


class Place:
    def __init__(self, path, kind, key, value, same):
        self.path, self.kind, self.key, self.value, self.same = path, kind, key, value, same

    @property
    def name(self):
        k = self.key if isinstance(self.key, (str, int, type(None))) else "?"
        return (self.path, self.kind, k)

    def text(self):
        return "%s%s" % (self.path, "" if self.key is None else
                         ".%s" % self.key if self.kind == "attr" else "[%s]" % (self.name[2],))


class Watch:
    def __init__(self, scope):
        self.scope, self.depth = scope, 0
        self.places, self.applied, self.mode, self.world = {}, set(), None, None
        self.undo = []

    # -- installation
    def install(self, world, name, ns):
        self.world = world
        for k, v in list(ns.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name \
                    and not k.startswith("__"):
                ns[k] = self.wrap(v, None)
            elif isinstance(v, type) and v.__module__ == name:
                for n, f in list(vars(v).items()):
                    if isinstance(f, types.FunctionType) and (not n.startswith("__")
                                                              or n == "__call__"):
                        setattr(v, n, self.wrap(f, v))
                    elif isinstance(f, property) and f.fget is not None:
                        setattr(v, n, property(self.wrap(f.fget, v), f.fset, f.fdel))

    def wrap(self, f, cls):
        @functools.wraps(f)
        def inner(*a, **k):
            if self.depth or not V.PATHS:
                return f(*a, **k)
            self.depth += 1
            try:
                return self.call(f, cls, a, k)
            finally:
                self.depth -= 1
        return inner

    # -- one watched call
    def call(self, f, cls, a, k):
        me = a[0] if cls is not None and a else None
        r0 = Reach(self.world, me)
        if self.mode is not None:
            self.havoc(r0, a[1:] if cls is not None else a, k)
            r0 = Reach(self.world, me)
        j0 = len(JOURNAL)
        cur = {i: o.store.cur for i, (p, o) in r0.stores.items()}
        v = f(*a, **k)
        new = self.changes(f, cls, r0, j0, cur, a, k, me)
        if new:
            kept = {}
            for p in new:
                stores_of(p.value, kept)
            for i, x in stores_of(v).items():
                if i in kept and not any(x is y for y in a):
                    self.scope.ob("%s: the result is not shared with kept state" % f.__name__,
                                  False, "the returned array is kept in " +
                                  ", ".join(p.text() for p in new)[:200])
                    break
        return v

    def changes(self, f, cls, r0, j0, cur, a, k, me):
        out, seen = [], set()
        skip_self = cls is not None and any(c.__name__ in ACCUMULATE for c in cls.__mro__)

        def put(path, kind, key, value):
            if path == "self" and skip_self or path.startswith(("self.", "self[")) and skip_self:
                return
            same = next((n for n, x in list(enumerate(a)) + list(k.items())
                         if x is value and isinstance(x, Arr)), None)
            p = Place(path, kind, key, value, same)
            out.append(p)
            if p.name not in self.places:
                self.places[p.name] = p
            elif same is not None:
                self.places[p.name].same = same
        for e in JOURNAL[j0:]:
            if isinstance(e, (AttrChange, ClassChange)):
                if (id(e.o), e.n) in seen or id(e.o) not in r0.objs:
                    continue
                seen.add((id(e.o), e.n))
                now = e.now()
                if e.had and (now is e.old or scalar_same(now, e.old)):
                    continue
                path = r0.objs[id(e.o)][0]
                put(path, "attr", e.n, now)
                if ":" in path:
                    self.undo.append(e)
            elif isinstance(e, DictChange) and id(e.d) in r0.objs:
                if (id(e.d), Same(e.k)) in seen:
                    continue
                seen.add((id(e.d), Same(e.k)))
                now = dict.get(e.d, e.k)
                if e.had and (now is e.old or scalar_same(now, e.old)):
                    continue
                path = r0.objs[id(e.d)][0]
                put(path, "item", e.k, now)
                if ":" in path:
                    self.undo.append(e)
            elif isinstance(e, ListChange) and id(e.o) in r0.objs:
                if id(e.o) in seen or e.o.chunks is e.old:
                    continue
                seen.add(id(e.o))
                path = r0.objs[id(e.o)][0]
                put(path, "list", None, e.o)
                if ":" in path:
                    self.undo.append(e)
        args = stores_of(tuple(a[1:] if cls is not None else a) + tuple(k.values()))
        for i, (path, o) in r0.stores.items():
            if i not in args and o.store.cur is not cur[i] and not same_contents(o, cur[i]):
                put(path, "content", None, o)
                if ":" in path:
                    self.undo.append(lambda o=o, c=cur[i]: setattr(o.store, "cur", c))
        for path, o, old in r0.native.values():
            if o != old if not isinstance(o, (list, dict)) else len(o) != len(old):
                put(path, "native", None, o)
        for name, (ns, old) in r0.names.items():
            for n, x in list(ns.items()):
                if not n.startswith("__") and (n not in old or old[n] is not x):
                    put("%s:%s" % (name, n), "global", None, x)
                    self.undo.append(lambda ns=ns, n=n, o=old: ns.__setitem__(n, o[n])
                                     if n in o else ns.pop(n))
        return out

    # -- arbitrary earlier state
    def havoc(self, r, args, kw):
        where = {p: o for p, o in ((p, o) for p, o in r.objs.values())}
        arrs = {p: o for p, o in r.stores.values()}
        for name, p in list(self.places.items()):
            if name in self.applied:
                continue
            if p.kind == "content":
                o = arrs.get(p.path)
                if o is None:
                    continue
                self.applied.add(name)
                JOURNAL.append((o.store, o.store.cur))
                fresh = self.scope.arr("kept", *o.store.shape, kind=o.kind)
                o.store.cur = Node(get=lambda i, g=fresh.snap(): g(i))
                continue
            o = where.get(p.path)
            if o is None:
                continue
            self.applied.add(name)
            if p.kind not in ("attr", "item"):
                raise V.NotUnderstood("state kept between calls: " + p.text())
            if self.mode == "same" and p.same is not None and \
                    (isinstance(p.same, int) and p.same - (len(args) and 1) < len(args) or
                     p.same in kw):
                v = kw[p.same] if p.same in kw else args[p.same - 1]
            else:
                v = self.arbitrary(p.value, p)
            if p.kind == "attr":
                JOURNAL.append(ClassChange(o, p.key) if isinstance(o, type)
                               else AttrChange(o, p.key))
                if ":" in p.path:
                    self.undo.append(JOURNAL[-1])
                (type.__setattr__ if isinstance(o, type) else
                 setattr)(o, p.key, v)
            else:
                o[self.arbitrary_key(p.key, p)] = v
                if ":" in p.path:
                    self.undo.append(JOURNAL[-1])

    def arbitrary(self, v, p):
        if v is None or isinstance(v, (str, bool)):
            return v
        if isinstance(v, Num):
            s = P_fresh(T.isint(v.p))
            return Num(s)
        if isinstance(v, (int, float)):
            return Num(P_fresh(isinstance(v, int)))
        if isinstance(v, Arr):
            dims = [d if d.const() is not None else self.scope.int("kd%d" % next(V.SERIAL), 1)
                    for d in v.shape]
            return self.scope.arr("kept%d" % next(V.SERIAL), *dims, kind=v.kind)
        if isinstance(v, tuple):
            return tuple(self.arbitrary(x, p) for x in v)
        if isinstance(v, SList) and v.concrete:
            return SList([[self.arbitrary(x, p) for x in v.items()]])
        if isinstance(v, SDict):
            out = SDict()
            for k, x in v.items():
                dict.__setitem__(out, self.arbitrary_key(k, p), self.arbitrary(x, p))
            return out
        raise V.NotUnderstood("state kept between calls: %s (%s)" % (p.text(), type(v).__name__))

    def arbitrary_key(self, k, p):
        if isinstance(k, tuple):
            return tuple(self.arbitrary_key(x, p) for x in k)
        if isinstance(k, Num):
            return k if k.p.const() is not None else Num(P_fresh(T.isint(k.p)))
        return k

    def end_path(self):
        for e in reversed(self.undo):
            e()
        self.undo = []
        self.applied = set()


class Same:
    """Identity of a key."""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return id(self.k)

    def __eq__(self, o):
        return isinstance(o, Same) and o.k is self.k


def P_fresh(isint):
    return T.P(T.fresh("kept", isint))


def scalar_same(a, b):
    try:
        if isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float)) \
                and not isinstance(a, bool) and not isinstance(b, bool):
            return not (V.poly(a) - V.poly(b)).t
        return isinstance(a, (str, bool)) and type(a) is type(b) and a == b
    except Exception:
        return False
