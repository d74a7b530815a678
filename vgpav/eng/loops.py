"""Loops of symbolic length: the loop invariant is derived from one generic iteration.

Every location changed by the body is put in one of these classes; the class is the loop
invariant, it is checked against the generic iteration and not assumed:
  row      iteration q writes row loc(q) (affine or strictly increasing) of an array:
           before iteration q the rows loc(0..q-1) hold their final value M
  rows     iteration q writes several rows, none of them twice
  acc      the value grows by inc(q):  base + sum_{k<q} inc(k)
  last     the value after iteration q does not depend on the one before
  rec      L(0) = base, L(q+1) = E(q, L(q)); kept as a defined function, unfolded on demand
  append   list grown by one item per iteration
"""
from . import ctx as C
from . import terms as T
from . import val as V
from .seq import (AttrChange, DictChange, ListChange, Seq, SIter, SList, freeze, siter)
from .terms import P, ONE, ZERO, add, mul, neg
from .val import Arr, Cond, JOURNAL, Node, Num, Path, PATHS, from_fn, poly, undo_to, unsupported

GENERIC = []          # symbols of the enclosing generic iterations
DEFS = {}             # defined families: name -> f(idx) -> Poly
ORDER = {}            # name -> (position of the step index, direction)
_uid = [0]
CONT, BRK = "continue", "break"
REPORT = []           # (description) of every symbolic loop handled, for the evidence


class Ret:
    def __init__(self, v):
        self.value = v


class Poison:
    """A variable whose value from an earlier iteration is not modelled."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _no(self, *a, **k):
        unsupported(object.__getattribute__(self, "_why"))
    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __eq__ = _no
    __lt__ = __gt__ = __le__ = __ge__ = __truediv__ = __neg__ = __hash__ = _no


class Unbound:
    pass


UNBOUND = Unbound()


# ------------------------------------------------------------------ locations
class Cell:
    def __init__(self, name, cell):
        self.name, self.cell, self.key = name, cell, ("cell", id(cell))

    def get(self):
        try:
            return self.cell.cell_contents
        except ValueError:
            return UNBOUND

    def set(self, v):
        if v is UNBOUND:
            try:
                del self.cell.cell_contents
            except ValueError:
                pass
        else:
            self.cell.cell_contents = v


class Attr:
    def __init__(self, o, n):
        self.o, self.n, self.key, self.name = o, n, ("attr", id(o), n), "." + n

    def get(self):
        return getattr(self.o, self.n, UNBOUND)

    def set(self, v):
        JOURNAL.append(AttrChange(self.o, self.n))
        if v is UNBOUND:
            object.__delattr__(self.o, self.n)
        else:
            object.__setattr__(self.o, self.n, v)


class Item:
    def __init__(self, d, k):
        self.d, self.k, self.key, self.name = d, k, ("item", id(d), k), "[%r]" % (k,)

    def get(self):
        return dict.get(self.d, self.k, UNBOUND)

    def set(self, v):
        if v is UNBOUND:
            unsupported("dict item removed in a loop")
        self.d[self.k] = v


class Gen:
    """A value as a getter: shape None for a scalar, (…) for an array."""

    def __init__(self, v, facts):
        self.v, self.facts = v, facts
        self.kind = V.kind_of(v) if isinstance(v, (Arr, Num, Cond, int, float, bool)) else None
        if isinstance(v, Arr):
            self.shape, g = v.shape, v.snap()
            self.fn = self._under(g)
        elif isinstance(v, (Num, Cond, int, float)):
            p = poly(v)
            self.shape, self.fn = None, lambda idx: p
        else:
            self.shape, self.fn = "other", None

    def _under(self, g):
        def fn(idx):
            with C.assume(self.facts):
                return g(idx)
        return fn


def run_body(body, q, n, item):
    """All paths of one generic iteration: [(weight, facts, control)], calling collect()
    at the end of each path, with its effects undone afterwards."""
    raise NotImplementedError


def symbolic_loop(n, item, body, cells, cond=None):
    from . import hoare
    pol = hoare.POLICY[0]
    if pol is None:
        return closed_form(n, item, body, cells, cond)
    if body.__code__ not in pol.hard:
        m = len(JOURNAL)
        try:
            return closed_form(n, item, body, cells, cond)
        except V.NotUnderstood as e:
            if len(JOURNAL) != m:
                raise
            pol.hard[body.__code__] = str(e)
    return hoare.run(pol, n, item, body, cells, cond)


def closed_form(n, item, body, cells, cond=None):
    """Run `for q in range(n): body(item(q))` with symbolic n; cond: while condition."""
    locs = [Cell(k, c) for k, c in cells.items()]
    pre = {l.key: l.get() for l in locs}
    know = {}
    serial0 = next(V.SERIAL)
    _uid[0] += 1
    uid = _uid[0]
    outer = tuple(P(s) for s in GENERIC)
    counter = None
    for rnd in range(12):
        q = T.fresh("q")
        res = one_pass(q, n, item, body, locs, pre, know, serial0, uid, outer, cond)
        if cond is not None and n is None:
            n, counter = while_count(q, cond, res, know, locs, pre)
            if n is not None:
                # restart with the count known
                know = {}
                if C.decide("le", 1 - n) is not True:
                    if not bool(V.compare("le", ONE, n)):
                        restore(pre, locs)
                        return None
            continue
        changed = classify(q, n, res, know, uid, outer, pre)
        if not changed:
            return finish(q, n, res, know, locs, pre, outer)
    unsupported("no invariant found for a loop")


def restore(pre, locs):
    for l in locs:
        l.set(pre[l.key])


def one_pass(q, n, item, body, locs, pre, know, serial0, uid, outer, cond=None):
    """Explore the paths of a generic iteration.  Returns {key: (loc, [(w, Gen|..)])}."""
    out, prefix, weights, dropped = {}, [], [], 0
    jm = len(JOURNAL)
    nloc = len(locs)
    GENERIC.append(q)
    try:
        while prefix is not None:
            mark = C.mark()
            facts = [("le", neg(P(q)))]
            if n is not None:
                facts.append(("le", P(q) - n + 1))
            C.learn(facts)
            p = Path(prefix)
            PATHS.append(p)
            try:
                head = {}
                for l in locs:
                    k = know.get(l.key)
                    h = k["head"](q) if k else pre[l.key]
                    head[l.key] = h
                    l.set(h)
                stores = {}
                for key, k in know.items():
                    if key[0] == "store":
                        s = k["store"]
                        JOURNAL.append((s, s.cur))
                        s.cur = Node(get=k["head"](q))
                        stores[s] = s.cur
                    elif key[0] in ("attr", "item"):
                        head[key] = k["head"](q)
                        k["loc"].set(head[key])
                    elif key[0] == "list":
                        k["obj"]._set(k["head"](q))
                        head[key] = k["obj"].chunks
                j0 = len(JOURNAL)
                V.SERIAL_MARK = None
                if n is None and cond is not None and not know:
                    c = cond()
                    if isinstance(c, Cond) and c.lit is not None:
                        C.learn([c.lit])
                try:
                    ctl = body(item(P(q)) if item else None)
                    exc = None
                except V.Stop:
                    raise
                except Exception as e:
                    ctl, exc = None, e
                soft = any(k["class"] is None for k in know.values())
                if soft and p.taken and (exc is not None or ctl not in (None, CONT)):
                    dropped += 1        # this pass only looks for the invariant
                    continue
                if exc is not None or ctl not in (None, CONT):
                    if exc is not None and len(p.taken) == 0 and isinstance(exc, NameError):
                        unsupported("name error in a loop body: %s" % exc)
                    if exc is not None and not p.taken:
                        # every iteration raises, so the first one does
                        raise LoopRaise(exc)
                    unsupported("a loop of symbolic length is left early (%s)" %
                                (exc if exc is not None else ctl))
                fs = C.since(q)
                weights.append(p.w)
                collect(out, locs, head, stores, j0, serial0, p, fs, know)
            except LoopRaise as e:
                undo_to(jm)
                restore(pre, locs)
                raise e.args[0]
            finally:
                PATHS.pop()
                C.release(mark)
                undo_to(jm)
                prefix = p.next()
    finally:
        GENERIC.pop()
        restore(pre, locs)
    if dropped:
        if not weights:
            unsupported("every path leaves a loop of symbolic length early")
        rest = ONE
        for w in weights[:-1]:
            rest = rest - w
        for ent in out.values():
            ent["w"] = [rest if w is weights[-1] else w for w in ent["w"]]
        weights[-1] = rest
    # a location untouched on some path keeps its head value there
    npath = len(weights)
    for key, ent in out.items():
        if len(ent["w"]) < npath:
            have = set(id(w) for w in ent["w"])
            for w in weights:
                if id(w) not in have:
                    ent["w"].append(w)
                    ent["g"].append(None)
    return out


class LoopRaise(Exception):
    pass


def collect(out, locs, head, stores, j0, serial0, p, fs, know):
    def put(key, loc, g):
        e = out.setdefault(key, {"loc": loc, "w": [], "g": []})
        e["w"].append(p.w)
        e["g"].append(g)
    for l in locs:
        v = l.get()
        if v is not head[l.key] or l.key in know:
            put(l.key, l, Gen(v, fs) if v is not UNBOUND else None)
    seen = set()
    for e in JOURNAL[j0:]:
        if isinstance(e, tuple):
            s = e[0]
            if s.serial < serial0 and s not in seen:
                seen.add(s)
                put(("store", id(s)), s, s.cur)
        elif isinstance(e, AttrChange):
            l = Attr(e.o, e.n)
            if l.key not in seen and not getattr(type(e.o), "_fresh_ok", False):
                seen.add(l.key)
                put(l.key, l, Gen(l.get(), fs))
        elif isinstance(e, DictChange):
            l = Item(e.d, e.k)
            if l.key not in seen:
                seen.add(l.key)
                put(l.key, l, Gen(l.get(), fs))
        elif isinstance(e, ListChange):
            if id(e.o) not in seen and e.o.born < serial0:
                seen.add(id(e.o))
                put(("list", id(e.o)), e.o, Grown(e.old, e.o.chunks, fs, serial0))
    for s, h in stores.items():
        if s not in seen:
            put(("store", id(s)), s, h)
    for key, k in know.items():
        if key[0] in ("attr", "item") and key not in out:
            put(key, k["loc"], Gen(k["loc"].get(), fs))


# -------------------------------------------------------------- classification
def merged(ent, headget, shape):
    """Getter of the value after the iteration: sum over paths of weight * value."""
    ws, gs = ent["w"], ent["g"]
    if len(ws) == 1 and gs[0] is not None:
        return gs[0].fn

    def fn(idx):
        r = ZERO
        for w, g in zip(ws, gs):
            r = r + mul(w, g.fn(idx) if g is not None else headget(idx))
        return r
    return fn


def has(e, names):
    return bool(T.apps(e) & names)


def names_of(know):
    return {k["fam"] for k in know.values() if k.get("fam")}


def classify(q, n, res, know, uid, outer, pre):
    changed = False
    # new locations: give them an opaque head and look again
    for key, ent in res.items():
        if key not in know:
            changed = True
            fam = "L!%d.%d" % (uid, len(know))
            know[key] = new_location(key, ent, fam, outer, pre)
    if changed:
        return True
    if n is None:
        return False
    fams = {x["fam"] for x in know.values() if x["class"] is None and x["fam"]}
    for final in (False, True):
        for key, ent in res.items():
            k = know[key]
            if k["class"] is not None:
                continue
            if key[0] == "store":
                r = classify_store(q, n, ent, k, fams, outer, final)
            elif key[0] == "list":
                r = classify_list(q, n, ent, k, fams, outer, final)
            else:
                r = classify_value(q, n, ent, k, fams, outer, final)
            changed = changed or r
            if final and r:
                break
        if changed:
            return True
    # everything has a class: check that it still describes the iteration
    return verify(q, n, res, know)


def new_location(key, ent, fam, outer, pre):
    loc = ent["loc"]
    k = {"fam": fam, "class": None, "loc": loc}
    if key[0] == "store":
        s = loc
        k["store"], k["base"] = s, s.cur
        T.FAM.setdefault(fam, {})
        k["head"] = lambda q: (lambda idx: T.app(fam, outer + (P(q),) + tuple(idx)))
        return k
    if key[0] == "list":
        return new_list(k, ent, loc, fam, outer)
    base = pre[key] if key in pre else loc.get()
    k["base"] = base
    g = next((g for g in ent["g"] if g is not None), None)
    shapes = [x for x in ent["g"] if x is not None]
    new_arr = next((x for x in shapes if x.shape not in (None, "other")), None)
    if any(x.shape == "other" for x in shapes) or base is UNBOUND or \
            not (isinstance(base, (Arr, Num, int, float, Cond)) and not isinstance(base, bool)):
        k["class"], k["fam"] = "temp", None
        k["head"] = lambda q: (UNBOUND if base is UNBOUND else
                               base if same_other(base, ent) else
                               Poison("value of %s from an earlier iteration" % loc.name))
        return k
    if new_arr is not None:
        sh = new_arr.shape
        b = V.bget(base if not isinstance(base, Arr) else base.copy(), sh)
        if isinstance(base, Arr) and not V.same_shape(base.shape, sh):
            k["class"], k["fam"] = "temp", None
            k["head"] = lambda q: Poison("array of changing shape")
            return k
        k["shape"], k["b"] = sh, b
        kd = new_arr.kind
        k["kind"] = kd
        k["head"] = lambda q: from_fn(sh, lambda idx: T.app(fam, outer + (P(q),) + tuple(idx)), kd)
        return k
    p = poly(base)
    isint = T.isint(p) and all(T.isint(poly(x.v)) for x in shapes)
    T.FAM[fam] = {"isint": isint}
    k["shape"], k["b"] = None, (lambda idx: p)
    k["head"] = lambda q: Num(T.app(fam, outer + (P(q),)))
    return k


def same_other(base, ent):
    return all(g is not None and g.v is base for g in ent["g"])


def placeholders(shape):
    return [T.fresh("r") for _ in shape]


def at_q(fn, q, facts):
    """fn(idx) generic in q -> f(j, idx)."""
    def f(j, idx):
        with C.assume(facts):
            e = fn(idx)
        return T.subst(e, {q: j})
    return f


def qfacts(q, n):
    return [("le", neg(P(q))), ("le", P(q) - n + 1)]


def inst_of(rs, q, e):
    """e (generic in q and the placeholders) at (j, idx)."""
    def f(j, idx, m=None):
        m = dict(m) if m else {}
        m.update(zip(rs, idx))
        m[q] = j
        return T.subst(e, m)
    return f


def outer_map(outer, o):
    return {list(y.t)[0].f[0][0]: x for y, x in zip(outer, o)}


def classify_value(q, n, ent, k, fams, outer, final):
    fam, sh, b = k["fam"], k["shape"], k["b"]
    hd = k["head"](q)
    hget = (lambda idx: poly(hd)) if sh is None else hd.snap()
    fn = merged(ent, hget, sh)
    rs = placeholders(sh or ())
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh or ()))):
        idx = tuple(P(r) for r in rs)
        E = fn(idx)
        L = hget(idx)

    def mk(f):
        if sh is None:
            return lambda x: Num(f(P(x), ()))
        return lambda x: from_fn(sh, lambda idx, x=P(x): f(x, idx), k.get("kind", "f"))
    if not has(E, fams):
        at = inst_of(rs, q, E)

        def last(j, idx):
            c = T.bracket("eq", j)
            if c.const() == 1:
                return b(idx)
            if c.const() == 0:
                return at(j - 1, idx)
            with C.assume([("eq", j)]):
                x = b(idx)
            with C.assume([("ne", j)]):
                v = at(j - 1, idx)
            return mul(c, x) + mul(ONE - c, v)
        k["class"], k["value"], k["head"] = "last", last, mk(last)
        return True
    inc = E - L
    if not has(inc, fams):
        at = inst_of(rs, q, inc)

        def acc(j, idx):
            v = T.fresh("a")
            with C.binders([(v, j)]):
                body = at(P(v), idx)
            return b(idx) + T.mksum(v, j, body)
        k["class"], k["value"], k["head"] = "acc", acc, mk(acc)
        return True
    if not final:
        return False
    # recursion: L(j, idx) stays an applied symbol, unfolded on demand
    define(k, outer, inst_of(rs, q, E), b)
    k["value"] = lambda j, idx: T.app(fam, outer + (j,) + tuple(idx))
    return True


def define(k, outer, at, b):
    """The family L(0) = b, L(j) = at(j - 1)."""
    fam, no = k["fam"], len(outer)

    def unfold(args):
        m = outer_map(outer, args[:no])
        j, idx = args[no], args[no + 1:]
        c = T.bracket("eq", j)
        if c.const() == 1:
            return T.subst(b(idx), m)
        v = at(j - 1, idx, m)
        if c.const() == 0:
            return v
        return mul(c, T.subst(b(idx), m)) + mul(ONE - c, v)
    DEFS[fam], ORDER[fam] = unfold, (no, 1)
    k["class"] = "rec"


def classify_store(q, n, ent, k, fams, outer, final):
    s = k["store"]
    sh = s.shape
    rs = placeholders(sh)
    idx = tuple(P(r) for r in rs)
    hget = k["head"](q)
    base = k["base"]
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh))):
        E = merge_nodes(ent, hget, idx)
        inc = E - hget(idx)
    if not has(inc, fams):
        at = inst_of(rs, q, inc)

        def acc(j, i2):
            v = T.fresh("a")
            with C.binders([(v, j)]):
                body = at(P(v), i2)
            return base.read(i2) + T.mksum(v, j, body)
        k["class"], k["value"] = "acc", acc
        k["head"] = lambda x: (lambda i2: acc(P(x), i2))
        return True
    loc = find_row(ent["g"], rs, q, idx, n, sh)
    if loc is None:
        if has(E, fams):
            if not final:
                return False
            define(k, outer, inst_of(rs, q, E), base.read)
            k["value"] = lambda j, i2: T.app(k["fam"], outer + (P(j),) + tuple(i2))
            return True
        at = inst_of(rs, q, E)

        def last(j, i2):
            c = T.bracket("eq", j)
            if c.const() == 1:
                return base.read(i2)
            if c.const() == 0:
                return at(j - 1, i2)
            return mul(c, base.read(i2)) + mul(ONE - c, at(j - 1, i2))
        k["class"], k["value"] = "last", last
        k["head"] = lambda x: (lambda i2: last(P(x), i2))
        return True
    ax, sgn, off, injective = loc
    if not injective:
        more = affine_rows(ent["g"], rs, q, idx, ax)
        if len(more) > 1:
            return several_rows(q, n, ent, k, more, ax, rs, fams, final)
    k.update({"class": "row", "axis": ax, "sgn": sgn, "off": off, "inj": injective, "rs": rs,
              "n": n, "outer": outer, "recursive": True, "selfname": k["fam"] + ".F",
              "state": 0})
    T.FAM.setdefault(k["selfname"], {})
    row_value(k, ent, q)

    def value_at(j, i2, m=None):
        m = dict(m) if m else {}
        m.update({x: i2[i] for i, x in enumerate(rs) if i != ax})
        m[k["q"]] = j
        return T.subst(k["V"], m)
    k["value_at"] = value_at
    if injective:
        if has(k["V"], {k["fam"]}):
            unsupported("a loop reads rows it scatters to")

        def scat(j, i2):
            v = T.fresh("a")
            with C.binders([(v, j)]):
                e = i2[ax] - injective(P(v))
                c = T.bracket("eq", e)
                if c.const() == 0:
                    body = ZERO
                else:
                    with C.assume([("eq", e)]):
                        x = value_at(P(v), i2) - base.read(i2)
                    body = mul(c, x)
            return base.read(i2) + T.mksum(v, j, body)
        k["value"] = scat
        k["final"] = lambda i2: scat(n, i2)
        k["head"] = lambda x: (lambda i2: scat(P(x), i2))
        return True

    def resolve(i2):
        """Final content of the row."""
        j = T.scale(i2[ax] - off, sgn)
        if k["recursive"]:
            if outside(j, ZERO, n):
                return base.read(i2)
            return T.app(k["selfname"], outer + tuple(i2))
        return bracket_range(j, ZERO, n, lambda: value_at(j, i2), lambda: base.read(i2))

    def head(x):
        jx = P(x)

        def get(i2):
            j = T.scale(i2[ax] - off, sgn)
            return bracket_range(j, jx, n, lambda: base.read(i2), lambda: resolve(i2))
        return get
    k["value"] = lambda j, i2: head(j)(i2)
    k["final"], k["head"] = resolve, head
    return True


def affine_rows(nodes, rs, q, idx, ax):
    """The different rows (sign, offset) on axis ax that an iteration writes."""
    out = []
    for nd in nodes:
        while nd is not None and nd.prev is not None:
            for op, p in nd.lits(idx):
                lin = linear(p, rs[ax]) if op == "eq" and rs[ax] in T.free(p) else None
                if lin is None or lin[0] not in (1, -1):
                    continue
                lq = linear(T.scale(lin[1], -lin[0]), q)
                if lq is not None and lq[0] in (1, -1) and q not in T.free(lq[1]) and \
                        (lq[0], lq[1]) not in out:
                    out.append((lq[0], lq[1]))
            nd = nd.prev
    return out


def several_rows(q, n, ent, k, rows, ax, rs, fams, final):
    """Every iteration writes several rows, no row twice, with values that do not depend on
    the array."""
    sh, base, fam = k["store"].shape, k["base"], k["fam"]
    hget = k["head"](q)
    loc = lambda r, x: T.scale(P(x), r[0]) + r[1]
    u, v = T.fresh("u"), T.fresh("v")
    with C.assume(qfacts(u, n) + qfacts(v, n)):
        for i, a in enumerate(rows):
            for b in rows[:i]:
                if C.decide("eq", loc(a, u) - loc(b, v)) is not False:
                    unsupported("a loop may write a row of an array twice")
    idx = tuple(P(r) for r in rs)
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh))), \
            C.assume([("ne", idx[ax] - loc(r, q)) for r in rows]):
        if not same(merge_nodes(ent, hget, idx), hget(idx)):
            unsupported("a loop writes outside the rows of its iteration")
    vals = []
    for r in rows:
        ri = tuple(loc(r, q) if i == ax else x for i, x in enumerate(idx))
        with C.assume(qfacts(q, n)), C.binders([(x, sh[i]) for i, x in enumerate(rs) if i != ax]):
            vals.append(merge_nodes(ent, hget, ri))
        if has(vals[-1], {fam}):
            unsupported("the writes of a loop to an array follow no known pattern")
        if has(vals[-1], fams) and not final:
            return False

    def value(j, i2):
        def go(left):
            if not left:
                return base.read(i2)
            r, e = left[0]
            t = T.scale(i2[ax] - r[1], r[0])

            def inside():
                m = {x: i2[i] for i, x in enumerate(rs) if i != ax}
                m[q] = t
                return T.subst(e, m)
            return bracket_range(t, ZERO, j, inside, lambda: go(left[1:]))
        return go(list(zip(rows, vals)))
    k["class"], k["value"] = "rows", value
    k["head"] = lambda x: (lambda i2: value(P(x), i2))
    return True


def row_value(k, ent, q):
    """Value of the row written by iteration q, and the check that nothing else is written."""
    sh, ax, rs, n = k["store"].shape, k["axis"], k["rs"], k["n"]
    hget = k["head"](q)
    locp = k["inj"](P(q)) if k["inj"] else T.scale(P(q), k["sgn"]) + k["off"]
    idx = tuple(P(r) for r in rs)
    r0 = rs[ax]
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh))), \
            C.assume([("ne", P(r0) - locp)]):
        D = merge_nodes(ent, hget, idx) - hget(idx)
        D = cases_ne(D, r0, locp)
        if D.t:
            from .prove import is_zero
            if not is_zero(D):
                unsupported("a loop writes outside the row of its iteration")
    ri = tuple(locp if i == ax else P(x) for i, x in enumerate(rs))
    with C.assume(qfacts(q, n)), C.binders([(x, sh[i]) for i, x in enumerate(rs) if i != ax]):
        k["V"] = merge_nodes(ent, hget, ri)
    k["q"] = q


def bracket_range(j, lo, hi, inside, out):
    """[lo <= j < hi] inside + (1 - ..) out, deciding what can be decided."""
    a = T.bracket("le", lo - j)
    if a.const() == 0:
        return out()
    b = T.bracket("lt", j - hi)
    if b.const() == 0:
        return out()
    ca, cb = a.const() == 1, b.const() == 1
    if ca and cb:
        return inside()
    w = mul(a, b)
    fs = ([] if ca else [("le", lo - j)]) + ([] if cb else [("lt", j - hi)])
    with C.assume(fs):
        v = inside()
    if len(fs) == 1:
        with C.assume([V.negate(fs[0])]):
            o = out()
    else:
        o = out()
    return mul(w, v) + mul(ONE - w, o)


def outside(j, lo, hi):
    return C.decide("lt", j - lo) is True or C.decide("le", hi - j) is True


def cases_ne(D, r0, locp):
    b = T.bracket("eq", P(r0) - locp)
    if len(b.t) == 1:
        (m, _), = b.t.items()
        if len(m.f) == 1:
            return T.cases(D, m.f[0][0])[1]
    return D


def merge_nodes(ent, hget, idx):
    ws, gs = ent["w"], ent["g"]
    if len(ws) == 1:
        return gs[0].read(idx) if gs[0] is not None else hget(idx)
    r = ZERO
    for w, g in zip(ws, gs):
        r = r + mul(w, g.read(idx) if g is not None else hget(idx))
    return r


def find_row(nodes, rs, q, idx, n, sh):
    """(axis, sign, offset, injective) of the written row, from the write log."""
    for nd in nodes:
        while nd is not None and nd.prev is not None:
            for ax, r in enumerate(rs):
                for op, p in nd.lits(idx):
                    if op != "eq" or r not in T.free(p):
                        continue
                    lin = linear(p, r)
                    if lin is None or lin[0] not in (1, -1):
                        continue
                    loc = T.scale(lin[1], -lin[0])      # r = loc
                    if q not in T.free(loc):
                        continue
                    lq = linear(loc, q)
                    if lq is not None and lq[0] in (1, -1) and q not in T.free(lq[1]):
                        return ax, lq[0], lq[1], None
                    if increasing_in(loc, q, n) or distinct_in(loc, q, n):
                        return ax, 1, ZERO, (lambda j, loc=loc: T.subst(loc, {q: j}))
            nd = nd.prev
    return None


def linear(p, s):
    """(coefficient, rest) of p in the symbol s if it is linear with constant coefficient."""
    c, rest = 0, []
    for m, k in p.t.items():
        f = dict(m.f)
        if s in f:
            if len(f) == 1 and f[s] == 1:
                c = k
                continue
            return None
        if any(s in a.fv for a in f):
            return None
        rest.append((m, k))
    return c, T._mkpoly(dict(rest))


def increasing_in(loc, q, n):
    with C.assume(qfacts(q, n) + [("lt", P(q) + 1 - n)]):
        d = loc - T.subst(loc, {q: P(q) + 1})
        return C.decide("lt", d) is True or T.bracket("lt", d).const() == 1


def distinct_in(loc, q, n):
    v = T.fresh("v")
    with C.assume(qfacts(q, n) + qfacts(v, n) + [("ne", P(q) - P(v))]):
        d = loc - T.subst(loc, {q: P(v)})
        return C.decide("eq", d) is False or T.bracket("eq", d).const() == 0


# ------------------------------------------------------------------ fixed point
def verify(q, n, res, know):
    """The classes describe this pass; row values are recomputed until stable."""
    changed = False
    names = {x["selfname"] for x in know.values() if "selfname" in x}
    for key, k in know.items():
        ent = res.get(key)
        if k["class"] == "row":
            old = T.subst(k["V"], {k["q"]: P(q)})
            row_value(k, ent, q)
            rec = has(k["V"], names) and not k["inj"]
            if k["state"] == 0 or rec != k["recursive"]:
                k["state"], k["recursive"], changed = 1, rec, True
            elif not same(old, k["V"]):
                k["state"] += 1
                changed = True
        elif k["class"] == "append":
            if k["rec"] and not list_holds(q, n, ent, k):
                opaque_head(k)
        elif k["class"] in ("acc", "last", "rec", "rows") and ent is not None:
            if not holds(q, n, ent, k, key):
                opaque_head(k)
    return changed


def opaque_head(k):
    fam = k["fam"]
    unsupported("loop invariant of %s not stable" % fam)


def holds(q, n, ent, k, key):
    """value(q+1) == E(q) given value(q) at the head."""
    if key[0] == "store":
        sh = k["store"].shape
        rs = placeholders(sh)
        idx = tuple(P(r) for r in rs)
        with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh))):
            E = merge_nodes(ent, k["head"](q), idx)
            W = DEFS[k["fam"]](tuple(P(s) for s in GENERIC) + (P(q) + 1,) + idx) \
                if k["class"] == "rec" else k["value"](P(q) + 1, idx)
            return same(E, W)
    sh = k["shape"]
    rs = placeholders(sh or ())
    idx = tuple(P(r) for r in rs)
    hd = k["head"](q)
    hget = (lambda i: poly(hd)) if sh is None else hd.snap()
    fn = merged(ent, hget, sh)
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh or ()))):
        E = fn(idx)
        if k["class"] == "rec":
            d = k.get("E_check")
            W = DEFS[k["fam"]](tuple(P(s) for s in GENERIC) + (P(q) + 1,) + idx)
        else:
            W = k["value"](P(q) + 1, idx)
        return same(E, W)


def same(a, b):
    d = a - b
    if not d.t:
        return True
    from .prove import is_zero
    return is_zero(d)


# ------------------------------------------------------------------ conclusion
def finish(q, n, res, know, locs, pre, outer):
    REPORT.append({"count": T.show(n), "locations": sorted(
        "%s:%s" % (getattr(k["loc"], "name", None) or "array", k["class"])
        for k in know.values())})
    for key, k in know.items():
        if k["class"] == "row" and k["recursive"]:
            register_rec(k)
    newvals = {}
    for key, k in know.items():
        ent = res.get(key)
        if key[0] == "store":
            v = k["value"]
            s = k["store"]
            fnl = k.get("final") or (lambda idx, v=v: v(n, idx))
            newvals[key] = (s, Node(get=fnl))
        elif key[0] == "list":
            newvals[key] = (k["obj"], finish_list(q, n, ent, k))
        elif k["class"] == "temp":
            gs = [g for g in ent["g"]] if ent else []
            newvals[key] = (k["loc"], finish_temp(q, n, ent, k))
        else:
            v, sh = k["value"], k["shape"]
            newvals[key] = (k["loc"], Num(v(n, ())) if sh is None else
                            from_fn(sh, lambda idx, v=v: v(n, idx), k.get("kind", "f")))
    for key, (loc, v) in newvals.items():
        if key[0] == "store":
            JOURNAL.append((loc, loc.cur))
            loc.cur = v
        elif key[0] == "list":
            loc._set(v)
        else:
            loc.set(v)
    return None


def register_rec(k):
    n, q, Vq, ax, rs = k["n"], k["q"], k["V"], k["axis"], k["rs"]
    outer, sgn, off, base = k["outer"], k["sgn"], k["off"], k["base"]
    no = len(outer)

    def unfold(args):
        m0 = outer_map(outer, args[:no])
        i2 = args[no:]
        j = T.scale(i2[ax] - T.subst(off, m0), sgn)

        def inside():
            m = {x: i2[i] for i, x in enumerate(rs) if i != ax}
            m[q] = j
            m.update(m0)
            return T.subst(Vq, m)
        return bracket_range(j, ZERO, T.subst(n, m0), inside,
                             lambda: T.subst(base.read(i2), m0))
    DEFS[k["selfname"]], ORDER[k["selfname"]] = unfold, (no + ax, sgn)


class Grown:
    """The items which an iteration appends to a list."""

    def __init__(self, old, new, facts, serial0):
        flat = lambda cs: [x for c in cs for x in ([c] if isinstance(c, Seq) else c)]
        o, w = flat(old), flat(new)
        self.ok = len(w) == len(o) + 1 and all(x is y for x, y in zip(o, w)) and \
            not isinstance(w[-1], Seq)
        if self.ok:
            self.v, self.gen = w[-1], Gen(w[-1], facts)
            self.why, q = None, GENERIC[-1]
            try:
                self.at = keep(w[-1], q, serial0)
            except V.NotUnderstood as e:
                self.why, self.at = e, None


def keep(v, q, serial0):
    """freeze() for an item of a list: an array from before the loop stays that array."""
    if isinstance(v, tuple):
        fs = [keep(x, q, serial0) for x in v]
        return lambda j: tuple(f(j) for f in fs)
    if isinstance(v, Arr) and v.store.serial < serial0:
        m = v.map
        return lambda j: Arr(v.store, [T.subst(d, {q: j}) for d in v.shape], lambda idx: tuple(
            T.subst(e, {q: j}) for e in m(idx)), v.kind, False)
    f = freeze(v, q)
    return (lambda j: fixed(f(j))) if isinstance(v, Arr) else f


def fixed(a):
    """A copy: a write to it would be lost, so it is not understood."""
    if isinstance(a, Arr):
        a.store.fixed = True
    return a


def numeric(v):
    return isinstance(v, (Num, int, float)) and not isinstance(v, bool) or \
        isinstance(v, Arr) and v.kind in "fi"


def new_list(k, ent, loc, fam, outer):
    """A list that grows by one item per iteration: its items are a family F(j)."""
    k["obj"], k["base"] = loc, list(loc.chunks)
    base = k["base"]
    k["fam"], k["rec"] = None, False
    k["head"] = lambda q: base + [Seq(P(q), lambda j: unsupported(
        "reading a list that the loop is building"))]
    old = SList(base)
    its = old.items() if old.concrete else None
    gs = ent["g"]
    if its is None or len(its) > 8 or not all(isinstance(g, Grown) and g.ok for g in gs):
        return k
    sh = gs[0].gen.shape
    if not all(numeric(x) for x in its + [g.v for g in gs]):
        return k
    if not all((x.shape if isinstance(x, Arr) else None) is None if sh is None else
               isinstance(x, Arr) and V.same_shape(x.shape, sh)
               for x in its + [g.v for g in gs]):
        return k
    nb = T.num(len(its))
    fs = [(lambda idx, x=x: x.get(idx)) if isinstance(x, Arr) else (lambda idx, x=x: poly(x))
          for x in its]
    T.FAM[fam] = {"isint": sh is None and all(T.isint(poly(x)) for x in its + [g.v for g in gs])}
    kd = "f" if sh is None else gs[0].v.kind
    if sh is None:
        item = lambda j: Num(T.app(fam, outer + (P(j),)))
    else:
        item = lambda j: fixed(from_fn(sh, lambda idx: T.app(fam, outer + (P(j),) + tuple(idx)),
                                       kd))
    k.update(fam=fam, shape=sh, nb=nb, first=fs, item=item, rec=True)
    k["head"] = lambda q: [Seq(nb + P(q), item)]
    return k


def grown(ent):
    """(getter of the appended item, Grown or None)."""
    gs = ent["g"] if ent else []
    if not gs or any(g is None for g in gs):
        unsupported("conditional append in a loop of symbolic length")
    if not all(g.ok for g in gs):
        unsupported("list changed in a loop by something other than one append")
    if len(gs) == 1:
        if gs[0].why is not None:
            raise gs[0].why
        return gs[0].gen.fn, gs[0]
    if any(g.gen.fn is None or (g.gen.shape is None) != (gs[0].gen.shape is None) or
           g.gen.shape is not None and not V.same_shape(g.gen.shape, gs[0].gen.shape)
           for g in gs):
        unsupported("different kinds of items are appended on the paths of a loop")
    return merged({"w": ent["w"], "g": [g.gen for g in gs]}, None, gs[0].gen.shape), None


def classify_list(q, n, ent, k, fams, outer, final):
    if not k["rec"]:
        k["class"] = "append"
        return True
    fn, g = grown(ent)
    sh = k["shape"]
    rs = placeholders(sh or ())
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh or ()))):
        E = fn(tuple(P(r) for r in rs))
    if has(E, fams - {k["fam"]}) and not final:
        return False
    if not has(E, {k["fam"]}) and g is not None:
        base, at = k["base"], g.at
        k["class"], k["rec"], k["fam"] = "append", False, None
        k["head"] = lambda q: base + [Seq(P(q), at)]
        return True
    no, at, nb, first = len(outer), inst_of(rs, q, E), k["nb"], k["first"]

    def unfold(args):
        m = outer_map(outer, args[:no])
        j, idx = args[no], args[no + 1:]
        cs = [T.bracket("eq", j - i) for i in range(len(first))]
        for c, f in zip(cs, first):
            if c.const() == 1:
                return T.subst(f(idx), m)
        r = at(j - nb, idx, m)
        for c, f in zip(cs[::-1], first[::-1]):
            if c.const() != 0:
                r = mul(c, T.subst(f(idx), m)) + mul(ONE - c, r)
        return r
    DEFS[k["fam"]], ORDER[k["fam"]] = unfold, (no, 1)
    k["class"] = "append"
    return True


def list_holds(q, n, ent, k):
    fn, _ = grown(ent)
    rs = placeholders(k["shape"] or ())
    idx = tuple(P(r) for r in rs)
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, k["shape"] or ()))):
        return same(fn(idx), DEFS[k["fam"]](
            tuple(P(s) for s in GENERIC) + (P(q) + k["nb"],) + idx))


def finish_list(q, n, ent, k):
    if k["rec"]:
        return [Seq(k["nb"] + n, k["item"])]
    fn, g = grown(ent)
    if g is not None:
        return list(k["base"]) + [Seq(n, g.at)]
    sh, v = ent["g"][0].gen.shape, ent["g"][0].v
    rs = placeholders(sh or ())
    with C.assume(qfacts(q, n)), C.binders(list(zip(rs, sh or ()))):
        at = inst_of(rs, q, fn(tuple(P(r) for r in rs)))
    if sh is None:
        return list(k["base"]) + [Seq(n, lambda j: Num(at(P(j), ())))]
    return list(k["base"]) + [Seq(n, lambda j: fixed(from_fn(sh, lambda idx: at(P(j), idx),
                                                              V.kind_of(v))))]


def finish_temp(q, n, ent, k):
    gs = ent["g"]
    if any(g is None for g in gs) or len(gs) != 1:
        return Poison("variable %s set on some paths of a loop only" % k["loc"].name)
    g = gs[0]
    if g.shape == "other" and not isinstance(g.v, (tuple, SList)):
        if isinstance(g.v, Poison):
            return g.v
        return g.v
    with C.assume(g.facts):
        try:
            f = freeze(g.v, q)
        except V.NotUnderstood as e:
            return Poison(str(e))
    return f(n - 1)


# ------------------------------------------------------------------ while loops
def while_count(q, cond, res, know, locs, pre):
    """Count of a while loop controlled by a counter that moves by a constant step."""
    # make sure all changed locations have heads
    changed = False
    for key, ent in res.items():
        if key not in know:
            changed = True
            know[key] = new_location(key, ent, "W!%d.%d" % (_uid[0], len(know)),
                                     tuple(P(s) for s in GENERIC), pre)
    if changed:
        return None, None
    heads = {}
    for key, ent in res.items():
        k = know[key]
        if k.get("shape", 0) is not None or key[0] != "cell":
            continue
        L = poly(k["head"](q))
        # every path of an iteration moves it by the same constant
        if any(g.shape is not None for g in ent["g"]):
            continue
        steps = {(poly(g.v) - L).const() for g in ent["g"]}
        if len(steps) == 1 and None not in steps:
            heads[key] = (k, steps.pop())
    saved = {l.key: l.get() for l in locs}
    try:
        for l in locs:
            if l.key in heads:
                k, c = heads[l.key]
                l.set(Num(poly(pre[l.key]) + T.scale(P(q), c)))
            elif l.key in know:
                l.set(Poison("a while condition on something other than a counter"))
        with C.assume([("le", neg(P(q)))]):
            cnd = cond()
    finally:
        for l in locs:
            l.set(saved[l.key])
    if not isinstance(cnd, Cond) or cnd.lit is None:
        unsupported("this while condition")
    op, p = cnd.lit
    lin = linear(p, q)
    if lin is None or lin[0] == 0:
        unsupported("this while condition")
    a, r = lin
    if op in ("lt", "le") and a > 0:
        # a q + r < 0  <=>  q < -r/a
        x = T.scale(neg(r), 1 / T.Q(a))
        if op == "lt":
            n = neg(T.mkfn("floor", (neg(x),)))
        else:
            n = T.mkfn("floor", (x,)) + 1
    elif op == "ne" and abs(a) == 1:
        n = T.scale(neg(r), a)
    else:
        unsupported("this while condition")
    if C.decide("le", neg(n)) is not True:
        if not bool(V.compare("le", ZERO, n)):
            n = ZERO
    return n, True


# ------------------------------------------------------------------ entry points
LIMIT = 64


def loop(it, body, names):
    it = siter(it)
    cells = cells_of(body, names)
    if isinstance(it, SIter):
        c = it.count.const()
        if c is not None and c <= LIMIT:
            it = [it.item(T.num(j)) for j in range(int(c))]
    if not isinstance(it, SIter):
        for x in it:
            r = body(x)
            if r is BRK:
                return BRK
            if isinstance(r, Ret):
                return r
        return None
    n = it.count
    if C.decide("le", 1 - n) is not True:
        if not bool(V.compare("le", ONE, n)):
            return None
    return symbolic_loop(n, it.item, body, cells)


def cells_of(body, names):
    free = body.__code__.co_freevars
    cl = body.__closure__ or ()
    return {n: c for n, c in zip(free, cl) if n in names}


def while_(cond, body, names):
    cells = cells_of(body, names)
    for k in range(100000):
        c = cond()
        if isinstance(c, (Cond, Num)):
            t = V.truth(c)
            k0 = t.b.const()
            if k0 is None:
                break
            c = bool(k0)
        if not c:
            return None
        from . import hoare
        if hoare.POLICY[0] is not None:
            break
        r = body(None)
        if r is BRK:
            return BRK
        if isinstance(r, Ret):
            return r
    else:
        unsupported("while loop does not end")
    return symbolic_loop(None, None, body, cells, cond=cond)


def comp(it, fn, cond=None):
    it = siter(it)
    if isinstance(it, SIter):
        c = it.count.const()
        if c is not None and c <= LIMIT:
            it = [it.item(T.num(j)) for j in range(int(c))]
    if not isinstance(it, SIter):
        return SList([[fn(x) for x in it if cond is None or bool(cond(x))]])
    if cond is not None:
        unsupported("filtered comprehension of symbolic length")
    n = it.count
    q = T.fresh("q")
    j0 = len(JOURNAL)
    s0 = next(V.SERIAL)
    GENERIC.append(q)
    mark = C.mark()
    try:
        C.learn([("le", neg(P(q))), ("le", P(q) - n + 1)])
        p = Path([])
        PATHS.append(p)
        try:
            v = fn(it.item(P(q)))
        finally:
            PATHS.pop()
        if p.taken:
            unsupported("a branch inside a comprehension of symbolic length")
        for e in JOURNAL[j0:]:
            if isinstance(e, tuple):
                if e[0].serial < s0:
                    unsupported("side effect inside a comprehension")
            elif isinstance(e, ListChange) and e.o.born > s0:
                pass        # a list made here
            else:
                unsupported("side effect inside a comprehension")
        f = keep(v, q, s0)
    finally:
        GENERIC.pop()
        C.release(mark)
    r = SList()
    r._set([Seq(n, f)])
    return r
