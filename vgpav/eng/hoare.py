"""Loops that are left early: Hoare rule with an invariant found by elimination.

The state of the loop is every location the body changes, named by how the code reaches it.
At the head of a generic iteration each of them is an arbitrary value; what is known about it is
the conjunction of the candidate facts (below) that hold on entry and are preserved by every path
of the body that reaches the end of the iteration, assuming the conjunction (greatest fixpoint,
each candidate checked separately against the final conjunction).  Then the function is followed
from there twice: leaving the loop normally, and through one generic iteration that leaves the
loop early (return, break or exception); the postcondition is proved for all of them.

Candidates, for scalars s, two-valued flags g, vectors v, arrays A filled row by row:
  s > 0, s >= 0, s < 0, s <= 0, s <= / >= its value on entry, s - s' constant,
  s = F(v) for the functions F the contract names, and each of these guarded by g = c;
  rows from q on are as on entry; A[k] >= s, A[k] <= s for k < q; A monotone up to row q.
The candidates are only a search space: a wrong one is eliminated, none is assumed.
"""
import contextlib

from . import ctx as C
from . import terms as T
from . import val as V
from .seq import AttrChange, DictChange, ListChange, SList
from .terms import P, ZERO, neg
from .val import Arr, Cond, JOURNAL, Node, Num, Path, PATHS, from_fn, poly, undo_to, unsupported

POLICY = [None]


class Policy:
    """functions: {name: f(vector) -> Poly}; roots: {name: object} the contract's ghost state;
    rows: which arrays (by name) are filled with values of interest."""

    def __init__(self, functions=None, roots=None, rows=lambda name: True):
        self.rows = rows
        self.functions, self.roots = functions or {}, roots or {}
        self.memo, self.report, self.hard = {}, [], {}
        self.names = {}

    def sym(self, *key, isint=False):
        """The same symbol every time the same place is reached: what was decided about it
        on one path need not be decided again on the next."""
        r = self.names.get(key + (isint,))
        if r is None:
            r = self.names[key + (isint,)] = P(T.fresh("h", isint))
        return r

    def fam(self, *key):
        r = self.names.get(key)
        if r is None:
            r = self.names[key] = fam("H")
        return r


@contextlib.contextmanager
def using(policy):
    old, POLICY[0] = POLICY[0], policy
    lin, C.LINEAR[0] = C.LINEAR[0], True
    try:
        yield
    finally:
        POLICY[0], C.LINEAR[0] = old, lin


Skip = V.Skip


# ----------------------------------------------------------------- access paths
def walk(body, roots):
    """{identity: name} of what the loop body can reach, and {name: location}."""
    from .loops import Attr, Cell, Item
    ids, locs, seen = {}, {}, set()

    def visit(name, v, depth):
        if isinstance(v, Arr):
            ids.setdefault(("store", id(v.store)), name + "[:]")
            locs.setdefault(name + "[:]", v.store)
            return
        if isinstance(v, (Num, Cond, int, float, str, bytes, bool, type(None), SList)) \
                or depth > 4 or id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, dict):
            for k in list(v):
                n = "%s[%r]" % (name, k)
                ids.setdefault(("item", id(v), k), n)
                locs.setdefault(n, Item(v, k))
                visit(n, dict.get(v, k), depth + 1)
            return
        if isinstance(v, (list, tuple)):
            for k, x in enumerate(v):
                visit("%s[%d]" % (name, k), x, depth + 1)
            return
        if callable(v) and not hasattr(type(v), "__slots__") or isinstance(v, type):
            return
        names = list(getattr(v, "__dict__", ()))
        for t in type(v).__mro__:
            sl = t.__dict__.get("__slots__", ())
            names += [sl] if isinstance(sl, str) else list(sl)
        for k in names:
            try:
                x = object.__getattribute__(v, k)
            except AttributeError:
                continue
            n = "%s.%s" % (name, k)
            ids.setdefault(("attr", id(v), k), n)
            locs.setdefault(n, Attr(v, k))
            visit(n, x, depth + 1)
    free = body.__code__.co_freevars
    for n, c in sorted(zip(free, body.__closure__ or ()), key=lambda z: z[0]):
        l = Cell(n, c)
        ids[l.key] = n
        locs[n] = l
        try:
            visit(n, c.cell_contents, 0)
        except ValueError:
            pass
    for n, o in roots.items():
        visit(n, o, 0)
    return ids, locs


# --------------------------------------------------------------------- state
FLAG, SCALAR, VECTOR, STORE, TEMP = "flag", "scalar", "vector", "store", "temp"
COUNTER = "counter"       # the initial value plus so much per iteration


class Var:
    """One changed location."""

    def __init__(self, name, init):
        self.name, self.init = name, init
        self.kind, self.values, self.shape, self.isint = None, [], None, True
        self.frame = True
        self.step = None


class State:
    """Values of the changed locations at one point; getters only."""

    def __init__(self):
        self.val = {}           # name -> Poly / constant / getter
        self.q = None


def const_of(v):
    """A hashable constant (python value) or None."""
    if isinstance(v, (bool, str, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (int, Num, Cond)):
        c = poly(v).const()
        if c is not None:
            return ("num", c)
    return None


def loc_value(l):
    from .loops import UNBOUND
    if hasattr(l, "cur"):
        return l
    v = l.get()
    return UNBOUND if v is UNBOUND else v


class Loop:
    def __init__(self, policy, n, item, body, cells, cond):
        self.policy, self.n, self.item, self.body, self.cond = policy, n, item, body, cond
        self.key = tuple(tuple(p.taken) for p in PATHS)
        self.goes = None
        self.ids, self.locs = walk(body, policy.roots)
        self.pre = {}
        for name, l in self.locs.items():
            self.pre[name] = l.cur if hasattr(l, "cur") else l.get()

    # -- havoc
    def havoc(self, vs, q, flags, phase):
        """phase: which candidates are assumed (families carry them as axioms)."""
        from .loops import Poison, UNBOUND
        st = State()
        st.q = q
        for v in vs.values():
            l = self.locs[v.name]
            if v.kind == FLAG:
                c = flags[v.name]
                st.val[v.name] = c
                self.put(l, c[2])
            elif v.kind == COUNTER:
                st.val[v.name] = poly(v.init) + T.mul(v.step, q)
                self.put(l, Num(st.val[v.name]))
            elif v.kind == SCALAR:
                p = self.policy.sym(self.key, v.name, isint=v.isint)
                st.val[v.name] = p
                self.put(l, Num(p))
            elif v.kind == VECTOR:
                f = self.policy.fam(self.key, v.name)
                g = (lambda idx, f=f: T.app(f, tuple(idx)))
                st.val[v.name] = g
                self.put(l, from_fn(v.shape, g, v.nk))
            elif v.kind == STORE:
                f = self.policy.fam(self.key, v.name, phase)
                base = v.init

                def g(idx, f=f, base=base, framed=v.frame):
                    new = T.app(f, tuple(idx))
                    if not framed:
                        return new
                    b = T.bracket("lt", idx[0] - q)
                    if b.const() == 1:
                        return new
                    with C.assume([("le", q - idx[0])]):
                        old = base.read(tuple(idx))
                    if b.const() == 0:
                        return old
                    return T.mul(b, new) + T.mul(1 - b, old)
                st.val[v.name] = g
                st.val[v.name, "fam"] = f
                JOURNAL.append((l, l.cur))
                l.cur = Node(get=g)
            else:
                self.put(l, UNBOUND if v.init is UNBOUND and hasattr(l, "cell") else Poison(
                    "value of %s from an earlier iteration" % v.name))
        return st

    def put(self, l, v):
        from .loops import Cell, Item
        if isinstance(l, Item):
            JOURNAL.append(DictChange(l.d, l.k, l.k in l.d, dict.get(l.d, l.k)))
            dict.__setitem__(l.d, l.k, v)
        else:
            if isinstance(l, Cell):
                old = l.get()
                JOURNAL.append(lambda: l.set(old))
            l.set(v)

    def restore(self):
        from .loops import Cell
        for name, l in self.locs.items():
            if isinstance(l, Cell):
                l.set(self.pre[name])

    def read(self, vs, q):
        """State after the iteration."""
        st = State()
        st.q = q
        for v in vs.values():
            l = self.locs[v.name]
            if v.kind == STORE:
                st.val[v.name] = l.cur.read
                continue
            x = l.get()
            if v.kind == FLAG:
                c = const_of(x)
                st.val[v.name] = c + (x,) if c else None
            elif v.kind in (SCALAR, COUNTER):
                st.val[v.name] = poly(x) if V.is_scalar(x) else None
            elif v.kind == VECTOR:
                st.val[v.name] = x.snap() if isinstance(x, Arr) else None
        return st

    def entry(self, vs):
        st = State()
        st.q = ZERO
        for v in vs.values():
            if v.kind == FLAG:
                st.val[v.name] = const_of(v.init) + (v.init,)
            elif v.kind in (SCALAR, COUNTER):
                st.val[v.name] = poly(v.init)
            elif v.kind == VECTOR:
                st.val[v.name] = v.init.snap()
            elif v.kind == STORE:
                st.val[v.name] = v.init.read
        return st

    # -- what changes
    def observe(self, vs, j0, serial0, q):
        """Record changed locations and how they look; True if something new was seen."""
        from .loops import Attr, Cell, Item, UNBOUND
        new = False
        names = set(vs)
        changed = set()
        for name, l in self.locs.items():
            if isinstance(l, Cell) and l.get() is not self.pre[name]:
                changed.add(name)
        for e in JOURNAL[j0:]:
            key = None
            if isinstance(e, tuple):
                if e[0].serial < serial0:
                    key = ("store", id(e[0]))
            elif isinstance(e, AttrChange):
                key = ("attr", id(e.o), e.n)
            elif isinstance(e, DictChange):
                key = ("item", id(e.d), e.k)
            elif isinstance(e, ListChange):
                if e.o.born < serial0:
                    unsupported("a list is changed in a loop that is left early")
            if key is None:
                continue
            if key not in self.ids:
                if key[0] == "attr" and id(e.o) not in self.known_objects():
                    continue        # an object made in the body
                if key[0] == "item" and not any(k[0] == "item" and k[1] == key[1]
                                                for k in self.ids):
                    continue
                unsupported("a loop changes something it reaches in an unknown way: %s" % (
                    key[0],))
            changed.add(self.ids[key])
        for name in sorted(changed | names):
            l = self.locs[name]
            if name not in vs:
                v = vs[name] = Var(name, self.pre[name])
                if hasattr(l, "cur"):
                    v.kind = STORE
                else:
                    c = const_of(v.init)
                    if v.init is UNBOUND:
                        v.kind = TEMP
                    elif V.is_scalar(v.init) and not isinstance(v.init, bool) \
                            and V.is_scalar(l.get()) and T.isint(poly(v.init)) \
                            and (poly(l.get()) - poly(v.init)).const() not in (None, 0):
                        v.kind, v.step = COUNTER, poly(l.get()) - poly(v.init)
                        v.was = (FLAG, [c + (v.init,)]) if c is not None else (SCALAR, [])
                        new = True
                        continue
                    elif c is not None:
                        v.kind, v.values = FLAG, [c + (v.init,)]
                    elif V.is_scalar(v.init):
                        v.kind = SCALAR
                        v.isint = T.isint(poly(v.init))
                    elif isinstance(v.init, Arr):
                        v.kind, v.shape, v.nk = VECTOR, v.init.shape, V.kind_of(v.init)
                    else:
                        v.kind = TEMP
                new = True
            v = vs[name]
            if v.kind in (STORE, TEMP):
                continue
            x = l.get()
            if v.kind == COUNTER:
                if V.is_scalar(x):
                    if is_nothing(poly(x) - poly(v.init) - T.mul(v.step, q + 1)):
                        continue
                v.kind, v.values = v.was
                new = True
                if v.kind == SCALAR:
                    v.isint = T.isint(poly(v.init)) and V.is_scalar(x) and T.isint(poly(x))
                    continue
            if v.kind == FLAG:
                c = const_of(x)
                if c is None or (c not in [z[:2] for z in v.values] and len(v.values) >= 2):
                    new = True
                    if V.is_scalar(x) and all(z[0] in ("num", "bool") for z in v.values):
                        v.kind = SCALAR
                        v.isint = T.isint(poly(v.init)) and T.isint(poly(x))
                    elif isinstance(x, Arr):
                        v.kind = TEMP
                    else:
                        v.kind = TEMP
                elif c not in [z[:2] for z in v.values]:
                    v.values.append(c + (x,))
                    new = True
            elif v.kind == SCALAR:
                if not V.is_scalar(x):
                    v.kind, new = TEMP, True
                elif v.isint and not T.isint(poly(x)):
                    v.isint, new = False, True
            elif v.kind == VECTOR:
                if not isinstance(x, Arr) or not V.same_shape(x.shape, v.shape):
                    v.kind, new = TEMP, True
        return new

    def known_objects(self):
        return {k[1] for k in self.ids if k[0] == "attr"}


def is_nothing(p):
    from .prove import is_zero
    return is_zero(p)


_n = [0]


def fam(prefix):
    _n[0] += 1
    name = "%s!%d" % (prefix, _n[0])
    T.FAM.setdefault(name, {})
    return name


# ---------------------------------------------------------------- candidates
class Cand:
    """A fact about a state; when it has to be dropped, the weaker ones are tried."""

    def __init__(self, name, fact, guard=None, weaker=()):
        self.name, self.fact, self.guard, self.weaker = name, fact, guard, list(weaker)

    def on(self, st):
        if self.guard is None:
            return True
        g, c = self.guard
        x = st.val.get(g)
        return None if x is None else x[:2] == c


def candidates(L, vs):
    out = []
    sc = [v for v in vs.values() if v.kind in (SCALAR, COUNTER)]
    vec = [v for v in vs.values() if v.kind == VECTOR and len(v.shape) == 1]
    flags = [(v.name, c[:2]) for v in vs.values() if v.kind == FLAG and len(v.values) > 1
             for c in v.values]
    e = L.entry(vs)

    def guarded(name, fact, weaker=()):
        return [Cand("%s or %s != %s" % (name, g, c[1]), fact, (g, c), [
            w for w in weaker if w.guard == (g, c)]) for g, c in flags]

    def chain(*pairs):
        """Strongest first; each is followed by its guarded forms, then by the next."""
        weaker = []
        for name, fact in reversed(pairs):
            g = guarded(name, fact, weaker)
            weaker = [Cand(name, fact, None, g + [w for w in weaker if w.guard is None])]
        out.extend(weaker)
    real = [v for v in sc if not v.isint]
    num = [v for v in sc if v.isint]
    for v in real:
        n = v.name
        get = (lambda st, n=n: st.val[n])
        chain((n + " > 0", lambda st, get=get: ("lt", neg(get(st)))),
              (n + " >= 0", lambda st, get=get: ("le", neg(get(st)))))
        chain((n + " < 0", lambda st, get=get: ("lt", get(st))),
              (n + " <= 0", lambda st, get=get: ("le", get(st))))
        i = e.val[n]
        if i.const() != 0:
            out.append(Cand(n + " <= initially", lambda st, get=get, i=i: ("le", get(st) - i)))
            out.append(Cand(n + " >= initially", lambda st, get=get, i=i: ("le", i - get(st))))
        for fn, F in L.policy.functions.items():
            for w in vec:
                chain(("%s = %s(%s)" % (n, fn, w.name), lambda st, get=get, F=F, w=w: (
                    "eq", get(st) - F(st.val[w.name]))))
    for a in range(len(num)):
        for b in range(a):
            x, y = num[a].name, num[b].name
            c = e.val[x] - e.val[y]
            if c.const() is not None:
                out.append(Cand("%s - %s constant" % (x, y), lambda st, x=x, y=y, c=c: (
                    "eq", st.val[x] - st.val[y] - c)))
    for v in num:
        if v.kind == COUNTER:
            continue
        i = e.val[v.name]
        for k in (1, 2):
            out.append(Cand("%s counts iterations" % v.name, lambda st, n=v.name, i=i, k=k: (
                "eq", st.val[n] - i - st.q * k), None, [
                    Cand("%s at most %d per iteration" % (v.name, k),
                         lambda st, n=v.name, i=i, k=k: ("le", st.val[n] - i - st.q * k)),
                    Cand("%s at least %d per iteration" % (v.name, k),
                         lambda st, n=v.name, i=i, k=k: ("le", i + st.q * k - st.val[n]))]))
    for v in vs.values():
        if v.kind != STORE or not v.one or not L.policy.rows(v.name):
            continue
        for s in real:
            for sg, nm in ((1, ">="), (-1, "<=")):
                out.append(Rows("%s[k] %s %s" % (v.name, nm, s.name), v.name, s.name, sg))
                i = e.val[s.name]
                out.append(Rows("%s[k] %s %s initially" % (v.name, nm, s.name), v.name, None, sg, i))
        for sg, nm in ((1, "falls"), (-1, "rises")):
            out.append(Mono("%s %s" % (v.name, nm), v.name, sg))
    return out


class Rows(Cand):
    """sg * (A[k] - s) >= 0 for k < q."""

    def __init__(self, name, a, s, sg, init=None):
        Cand.__init__(self, name, None)
        self.a, self.s, self.sg, self.init = a, s, sg, init

    def value(self, st):
        return self.init if self.s is None else st.val.get(self.s)

    def learn(self, st, head):
        q, s, f, sg = st.q, self.value(st), st.val[self.a, "fam"], self.sg

        def ax(idx, pa):
            return [("or", [("lt", idx[0]), ("le", q - idx[0]), ("le", T.scale(s - pa, sg))])]
        add_axiom(f, self.name, ax)

    def holds(self, L, st):
        """Row by row: generic earlier row, and the row of this iteration."""
        if self.value(st) is None:
            return False
        g = st.val[self.a]
        k = P(T.fresh("k"))
        for fs, i in (([("le", neg(k)), ("le", k - st.q + 2)], k),
                      ([("le", 1 - st.q)], st.q - 1)):
            with C.assume(fs):
                if not proved(("le", T.scale(
                        self.value(st) - g((i,)), self.sg))):
                    return False
        return True


class Mono(Cand):
    def __init__(self, name, a, sg):
        Cand.__init__(self, name, None)
        self.a, self.sg = a, sg

    def learn(self, st, head):
        q, f, sg = st.q, st.val[self.a, "fam"], self.sg

        def ax(idx, pa):
            nxt = T.app(f, (idx[0] + 1,))
            prv = T.app(f, (idx[0] - 1,))
            return [("or", [("lt", idx[0]), ("le", q - idx[0] - 1), ("le", T.scale(nxt - pa, sg))]),
                    ("or", [("lt", idx[0] - 1), ("le", q - idx[0]), ("le", T.scale(pa - prv, sg))])]
        add_axiom(f, self.name, ax)

    def holds(self, L, st):
        g = st.val[self.a]
        k = P(T.fresh("k"))
        for fs, i in (([("le", neg(k)), ("le", k - st.q + 3)], k),
                      ([("le", 2 - st.q)], st.q - 2)):
            with C.assume(fs):
                if not proved(("le", T.scale(g((i + 1,)) - g((i,)), self.sg))):
                    return False
        return True


def add_axiom(f, name, ax):
    d = T.FAM[f]
    if name in d.setdefault("axioms", set()):
        return
    d["axioms"].add(name)
    old = d.get("facts")
    d["facts"] = (lambda idx, pa: old(idx, pa) + ax(idx, pa)) if old else ax


def proved(f, depth=0):
    """The fact follows from the facts in force."""
    op, p = f
    br = next((a for m in p.t for a, _ in m.f if a.kind == "br"), None)
    if br is not None and depth < 8:
        on, off = T.cases(p, br)
        lit = tuple(br.a)
        for l, x in ((lit, on), (V.negate(lit), off)):
            with C.assume([l]):
                from .prove import renorm
                if not proved((op, renorm(x)), depth + 1):
                    return False
        return True
    c = p.const()
    if c is not None:
        return c <= 0 if op == "le" else c < 0 if op == "lt" else c == 0
    if op == "eq":
        from .prove import renorm
        p = renorm(p)
        if not p.t:
            return True
        return proved(("le", p)) and proved(("le", neg(p)))
    fs = facts_for(p)
    if C._linear(op, p, fs) is True:
        return True
    op, p = cleared((op, p), fs)
    fs = [cleared(f, fs) for f in fs]
    fs += cofactors(fs)
    if C._linear(op, p, fs) is True or C._smt(op, p, fs, True, True) is True:
        return True
    C.LEMMA[0] += 1
    try:
        return C._smt(op, p, fs) is True
    finally:
        C.LEMMA[0] -= 1


def cofactors(fs):
    """g * h <= 0 and a strict sign of g give a sign of h."""
    out = []
    for f in fs:
        if f[0] not in ("le", "lt") or len(f[1].t) < 2:
            continue
        for g in fs:
            if g[0] != "lt" or g[1] is f[1]:
                continue
            h = T.quotient(f[1], g[1])         # g < 0
            if h is not None:
                out.append((f[0], neg(h)))
    return [f for f in out if f not in fs]


def facts_for(p):
    """Facts connected to p, also through the axioms of its families."""
    fs = C._relevant(p)
    for a in T.atoms_in(p, {"app"}):
        ax = (T.FAM.get(a.a[0]) or {}).get("facts")
        if ax:
            for f in ax(a.a[1], P(a)):
                for q in C._fpolys(f):
                    fs += [x for x in C._relevant(q) if x not in fs]
    return fs


def cleared(f, facts):
    """Multiplied by the denominators of known sign."""
    if f[0] == "or":
        return ("or", [cleared(x, facts) for x in f[1]])
    op, p = f
    low = {}
    for m in p.t:
        for a, e in m.f:
            if e < 0:
                low[a] = min(low.get(a, 0), e)
    for a, e in low.items():
        s = C.atom_sign(a, facts)
        if s not in ("pos", "neg"):
            continue
        p = T.mul(p, T.product({a: -e}))
        if s == "neg" and e % 2:
            p = neg(p)
    return (op, p)


def went_on(L, vs):
    """The condition of a while loop as a function of the iteration number, if that is all it
    depends on: it held in every iteration before."""
    if L.cond is None:
        return None
    q = T.fresh("q")
    mark, jm = C.mark(), len(JOURNAL)
    V.NOFORK[0] += 1
    try:
        C.learn([("le", neg(P(q)))])
        flags = {v.name: v.values[0] for v in vs.values() if v.kind == FLAG}
        st = L.havoc(vs, P(q), flags, "cond")
        c = L.cond()
        lit = c.lit if isinstance(c, V.Cond) else None
        if lit is None or lit[0] not in ("le", "lt"):
            return None
        fixed = {a for v in vs.values() if v.kind == SCALAR for a in v_atoms(st.val[v.name])}
        if (v_atoms(lit[1]) - {q}) & fixed or T.atoms_in(lit[1], {"app", "sum", "fun"}):
            return None
        return lambda k: (lit[0], T.subst(lit[1], {q: k}))
    except V.Undecided:
        return None
    finally:
        V.NOFORK[0] -= 1
        C.release(mark)
        undo_to(jm)
        L.restore()


def v_atoms(p):
    return set(T.free(p))


def earlier(L, q):
    """What is known at the head of iteration q because the loop got there."""
    fs = [("le", neg(q))]
    if L.goes is not None:
        fs.append(("or", [("le", q), L.goes(q - 1)]))
    return fs


# ------------------------------------------------------------------ the rule
def run(policy, n, item, body, cells, cond):
    L = Loop(policy, n, item, body, cells, cond)
    got = policy.memo.get(L.key)
    if got is None:
        got = policy.memo[L.key] = find(L) + (L.goes,)
    vs, keep, L.goes = got
    for v in vs.values():          # the initial values belong to this run
        v.init = L.pre[v.name]
    flags = {v.name: choose(L, v.name, v.values) for v in vs.values() if v.kind == FLAG}
    early = choose(L, "early", [True, False])
    q = policy.sym(L.key, "q", isint=True) if early or n is None else n
    facts = earlier(L, q)
    if n is not None and early:
        facts.append(("le", q - n + 1))
    C.learn(facts)
    st = L.havoc(vs, q, flags, ("run", early))
    assume(keep, st)
    if not early:
        if cond is not None and bool(cond()):
            raise Skip()
        return None
    if cond is not None and not bool(cond()):
        raise Skip()
    r = body(item(q) if item else None)
    if r is None or r == "continue":
        raise Skip()
    return r


def choose(L, what, xs):
    xs = list(xs)
    while len(xs) > 1:
        c = L.policy.sym("choice", L.key, what, len(xs), isint=True)
        if V.fork(("le", c), T.bracket("le", c)):
            return xs[0]
        xs = xs[1:]
    return xs[0]


def assume(cands, st):
    fs = []
    for c in cands:
        if not c.on(st):
            continue
        if hasattr(c, "learn"):
            c.learn(st, None)
        else:
            fs.append(c.fact(st))
    C.learn(fs)


def find(L):
    """The changed locations and the candidates that are inductive."""
    vs, cands = {}, None
    serial0 = next(V.SERIAL)
    for rnd in range(60):
        if cands is None:
            more = sweep(L, vs, None, serial0)
            if more:
                continue
            for v in vs.values():
                if v.kind == STORE:
                    v.nd = len(L.locs[v.name].shape)
                    v.one = v.nd == 1
            e = L.entry(vs)
            L.goes = went_on(L, vs)
            cands = admitted(candidates(L, vs), L, e)
            continue
        dropped = sweep(L, vs, cands, serial0)
        if dropped is None:          # the state looks different under the invariant
            cands = None
            continue
        if not dropped:
            L.policy.report.append([c.name for c in cands])
            return vs, cands
        cands = [c for c in cands if c not in dropped] + admitted(
            [w for c in dropped for w in c.weaker], L, e)
    unsupported("no invariant found for a loop that is left early")


def admitted(cs, L, e):
    """Those that hold on entry, or else the weaker ones that do."""
    out = []
    for c in cs:
        if initially(c, L, e):
            out.append(c)
        else:
            out += admitted(c.weaker, L, e)
    return out


def initially(c, L, e):
    if isinstance(c, (Rows, Mono)):
        return True
    on = c.on(e)
    if on is None:
        return False
    return not on or proved(c.fact(e))


_sweeps = [0]
TRACE = []


def sweep(L, vs, cands, serial0):
    """All paths of a generic iteration.  Looking for locations: True if new ones were seen.
    Checking: the candidates not preserved, or None if new locations turned up."""
    from .loops import CONT
    prefix = []
    jm = len(JOURNAL)
    bad = []
    seen_new = False
    _sweeps[0] += 1
    phase = _sweeps[0]
    while prefix is not None:
        mark = C.mark()
        p = Path(prefix)
        PATHS.append(p)
        try:
            flags = {v.name: choose(L, v.name, v.values) for v in vs.values() if v.kind == FLAG}
            q = L.policy.sym(L.key, "q", isint=True)
            C.learn(earlier(L, q) + ([("le", q - L.n + 1)] if L.n is not None else []))
            st = L.havoc(vs, q, flags, phase)
            if cands:
                assume([c for c in cands], st)
            j0 = len(JOURNAL)
            try:
                if L.cond is not None and not bool(L.cond()):
                    continue
                ctl = L.body(L.item(q) if L.item else None)
            except V.Stop:
                raise
            except Exception:
                continue        # leaves the loop: followed by run()
            if ctl is not None and ctl != CONT:
                continue
            if L.observe(vs, j0, serial0, q):
                seen_new = True
                if cands is not None:
                    return None
                continue
            if cands is None:
                continue
            after = L.read(vs, q + 1)
            for v in vs.values():
                if v.kind == STORE and v.frame and not framed(v, after, q):
                    v.frame = False
                    return None
            for c in cands:
                if c in bad:
                    continue
                if isinstance(c, (Rows, Mono)):
                    if not c.holds(L, after):
                        bad.append(c)
                    continue
                on = c.on(after)
                if on is False:
                    continue
                if on is None:
                    bad.append(c)
                    continue
                try:
                    f = c.fact(after)
                except (TypeError, AttributeError):
                    bad.append(c)
                    continue
                if c.on(st) and c.fact(st)[1] is f[1]:
                    continue
                if not proved(f):
                    bad.append(c)
                    if TRACE:
                        TRACE[0](c, f, st)
        finally:
            PATHS.pop()
            C.release(mark)
            undo_to(jm)
            L.restore()
            prefix = p.next()
    return bad if cands is not None else seen_new


def framed(v, after, q):
    """Rows after the one of this iteration are as on entry."""
    from .prove import is_zero
    k = P(T.fresh("k"))
    nd = v.nd
    idx = (k,) + tuple(P(T.fresh("k")) for _ in range(nd - 1))
    with C.assume([("le", q + 1 - k)]):
        return is_zero(after.val[v.name](idx) - v.init.read(idx))
