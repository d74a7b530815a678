"""Facts in force, and the decision procedure for comparisons under them.

A fact is (op, poly) meaning poly op 0 with op in le, lt, eq, ne, or
("or", [facts...]).  Decisions go through a cheap linear check, a sign check and
then z3 (with a resource limit, so that runs are repeatable).
"""
import contextlib
import sys
import time

RAW = [0]
STACK = []                  # list of tuples of facts
_id = [0]
_ids = {(): 0}
CUR = [0]
GEN = [0]                   # changes whenever a non-binder fact comes or goes
STATS = dict(z3=0, z3_s=0.0, decisions=0)
_z3 = None


def z3():
    global _z3
    if _z3 is None:
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        import z3 as m
        _z3 = m
    return _z3


def _key(f):
    if f[0] == "or":
        return ("or", tuple(_key(x) for x in f[1]))
    return (f[0], f[1].id)


def _push(facts):
    facts = tuple(facts)
    STACK.append((facts, CUR[0]))
    k = (CUR[0], tuple(_key(f) for f in facts))
    i = _ids.get(k)
    if i is None:
        i = _ids[k] = len(_ids)
    CUR[0] = i


def _pop():
    _, CUR[0] = STACK.pop()


def ident():
    return CUR[0]


@contextlib.contextmanager
def binders(bs):
    from . import terms as T
    n = len(STACK)
    for v, e in bs:
        p = T.P(v)
        if decide("le", T.neg(e)) is True:
            _push([("le", T.neg(p)), ("le", p - e + 1)])
    try:
        yield
    finally:
        while len(STACK) > n:
            _pop()


@contextlib.contextmanager
def assume(facts):
    _push([norm(f) for f in facts])
    try:
        yield
    finally:
        _pop()


def norm(f):
    from . import terms as T
    if f[0] == "or":
        return ("or", [norm(x) for x in f[1]])
    op, p = f
    if op == "lt" and T.isint(p):
        return ("le", p + 1)
    return (op, p)


def learn(facts):
    """Facts for the rest of the current path (popped by reset)."""
    _push([norm(f) for f in facts])
    GEN[0] += 1


def mark():
    return len(STACK)


def release(n):
    while len(STACK) > n:
        _pop()
    GEN[0] += 1


def since(q):
    """The facts in force from the first one that mentions the symbol q."""
    out, on = [], False
    for facts, _ in STACK:
        on = on or any(_mentions(f, q) for f in facts)
        if on:
            out.extend(facts)
    return tuple(out)


def _mentions(f, q):
    from . import terms as T
    if f[0] == "or":
        return any(_mentions(x, q) for x in f[1])
    return q in T.free(f[1])


def all_facts():
    for facts, _ in STACK:
        for f in facts:
            yield f


_memo = {}


def decide(op, p):
    """True / False if p op 0 is settled by the facts, None otherwise."""
    from . import terms as T
    c = p.const()
    if c is not None:
        return bool(c <= 0 if op == "le" else c < 0 if op == "lt" else c == 0)
    if op == "lt" and T.isint(p):
        return decide("le", p + 1)
    key = (op, p.id, CUR[0])
    if key in _memo:
        return _memo[key]
    STATS["decisions"] += 1
    r = _decide(op, p)
    _memo[key] = r
    return r


def _decide(op, p):
    from . import terms as T
    facts = _relevant(p)
    if op == "eq":
        r = _linear("le", p, facts)
        if r is False:
            return False
        s = _linear("le", T.neg(p), facts)
        if s is False:
            return False
        if r and s:
            return True
        for f in facts:
            if f[0] == "eq" and (f[1] is p or f[1] is T.neg(p)):
                return True
            if f[0] == "ne" and (f[1] is p or f[1] is T.neg(p)):
                return False
    else:
        r = _linear(op, p, facts)
        if r is not None:
            return r
    sg = sign(p, facts)
    if sg is not None:
        if op == "lt":
            if sg == "neg":
                return True
            if sg in ("nonneg", "pos"):
                return False
        elif op == "le":
            if sg in ("neg", "nonpos"):
                return True
            if sg == "pos":
                return False
        elif sg in ("pos", "neg"):
            return False
    return _smt(op, p, facts, LINEAR[0])


def _fpolys(f):
    if f[0] == "or":
        for x in f[1]:
            yield from _fpolys(x)
    else:
        yield f[1]


def _names(p):
    """Free symbols; family names stand in where the families are applied to constants."""
    from . import terms as T
    f = T.free(p)
    return f if f or p.const() is not None else T.apps(p)


_fn = {}


def _fnames(f):
    k = _key(f)
    r = _fn.get(k)
    if r is None:
        r = _fn[k] = frozenset().union(*[_names(q) for q in _fpolys(f)])
    return r


def _relevant(p):
    """Facts connected to p through shared symbols (constants of the problem such as
    the dimensions connect everything, so only a few rounds are taken)."""
    from . import terms as T
    facts = [(f, _fnames(f)) for f in {_key(f): f for f in all_facts()}.values()]
    sy = set(_names(p))
    out, rest = [], facts
    while True:
        new = [x for x in rest if x[1] & sy]
        if not new:
            break
        rest = [x for x in rest if not (x[1] & sy)]
        for f, s in new:
            out.append(f)
            sy |= s
    return out


_an = {}


def add_neg(a, b):
    k = (a.id, b.id)
    r = _an.get(k)
    if r is None:
        r = _an[k] = a - b
    return r


def _linear(op, p, facts):
    """One or two facts plus a constant."""
    from . import terms as T
    integral = T.isint(p)

    les = {}                # Poly without its constant -> [(constant, strict)]
    for f in facts:
        if f[0] in ("le", "lt"):
            b, c = T.split_const(f[1])
            les.setdefault(b, []).append((c, f[0] == "lt"))
        elif f[0] == "eq":
            for x in (f[1], T.neg(f[1])):
                b, c = T.split_const(x)
                les.setdefault(b, []).append((c, False))

    def implied(goal, strict):
        # goal <= 0 (or < 0) from one or two facts
        b, c0 = T.split_const(goal)
        for c, st in les.get(b, ()):
            d = c0 - c
            if d < 0 or (d == 0 and (st or not strict)):
                return True
        g = T.free(goal)
        cand = [x for x in les if T.free(x) & g]
        if len(cand) <= 24:
            for f in cand:
                for c2, st2 in les.get(add_neg(b, f), ()):
                    for c, st in les[f]:
                        d = c0 - c - c2
                        if d < 0 or (d == 0 and (st or st2 or not strict)):
                            return True
        return False
    if implied(p, op == "lt"):
        return True
    q = T.neg(p)
    if integral and op == "le":
        if implied(q + 1, False):
            return False
    elif implied(q, op == "le"):
        return False
    return None


def sign(p, facts=None):
    """pos / neg / nonneg / nonpos / None by monomials."""
    from . import terms as T
    if facts is None:
        facts = _relevant(p)
    ss = set()
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        strict = True
        for a, e in m.f:
            t = atom_sign(a, facts)
            if t == "pos":
                continue
            if e % 2 == 0 and t != "neg":
                strict = False
                continue
            if t == "nonneg":
                strict = False
            elif t == "neg":
                if e % 2:
                    s = -s
            elif t == "nonpos":
                if e % 2:
                    s = -s
                strict = False
            else:
                return None
        ss.add((s, strict))
    d = {s for s, _ in ss}
    if len(d) != 1:
        return None
    st = any(x for _, x in ss)
    return ("pos" if st else "nonneg") if d.pop() == 1 else ("neg" if st else "nonpos")


POS = {}      # family name -> "pos" / "nonneg" (all entries)


def atom_sign(a, facts):
    from . import terms as T
    if a.kind == "br":
        return "nonneg"
    if a.kind == "sym" and a.a[0] in ("pi", "e"):
        return "pos"
    if a.kind == "fn":
        n = a.a[0]
        if n == "sqrt":
            return "pos" if sign(a.a[1][0]) == "pos" else "nonneg"
        if n == "exp" or n == "const":
            return "pos"
        if n in ("abs", "imod"):
            return "nonneg"
        if n == "inv":
            return sign(a.a[1][0], None)
    if a.kind in ("app", "fun"):
        if a.a[0] in POS:
            f = POS[a.a[0]]
            return f(a) if callable(f) else f
        if a.kind == "fun":
            return None
    best = None
    if a.kind == "sum":
        ts = [atom_sign(b, []) if e % 2 else "nonneg" for b, e in a.a[1]]
        if all(t in ("pos", "nonneg") for t in ts):
            best = "nonneg"
    pa = T.P(a)
    for f in facts:
        if f[0] == "or":
            continue
        if len(f[1].t) > 2:
            continue
        # forms  -a + c <= 0, a + c <= 0
        d = f[1] + pa
        c = d.const()
        if c is not None and f[0] in ("le", "lt", "eq"):
            # -a + c <= 0  => a >= c
            if c > 0 or (c == 0 and f[0] == "lt"):
                return "pos"
            if c == 0:
                best = "nonneg"
        d = f[1] - pa
        c = d.const()
        if c is not None and f[0] in ("le", "lt", "eq"):
            # a + c <= 0 => a <= -c
            if c > 0 or (c == 0 and f[0] == "lt"):
                return "neg"
            if c == 0 and best is None:
                best = "nonpos"
    return best


# ------------------------------------------------------------------------ SMT
LINEAR = [False]  # contradictions are looked for with products as opaque values
LEMMA = [0]      # proving a ghost lemma: reciprocals get their defining equation


_vars, _polys, _facts = {}, {}, {}


def _var(a):
    x = _vars.get(a)
    if x is None:
        z = z3()
        n = "a%d" % a.id
        x = _vars[a] = z.Int(n) if a.isint else z.Real(n)
    return x


def _val(c):
    z = z3()
    return z.RealVal(c) if c.denominator != 1 else z.IntVal(int(c))


def _zpoly(p, linear):
    """z3 term of a Poly; the atoms, reciprocals and opaque products in it; is it nonlinear."""
    r = _polys.get((p.id, linear))
    if r is not None:
        return r
    z = z3()
    t, atoms, recips, prods, nl = [], {}, {}, {}, False
    for m, c in p.t.items():
        if not m.f:
            t.append(_val(c))
            continue
        if linear and (len(m.f) > 1 or m.f[0][1] != 1):
            x = prods[m] = z.Real("m%d" % m.id)
            for a, e in m.f:
                atoms[a] = 1
            t.append(_val(c) * x)
            continue
        parts = []
        for a, e in m.f:
            if e < 0:
                x = recips[a, e] = z.Real("r%d_%d" % (a.id, -e))
                parts.append(x)
            else:
                atoms[a] = 1
                parts += [_var(a)] * e
        nl = nl or len(parts) > 1
        x = parts[0]
        for y in parts[1:]:
            x = x * y
        t.append(x if c == 1 else -x if c == -1 else _val(c) * x)
    e = z.IntVal(0) if not t else z.Sum(t) if len(t) > 1 else t[0]
    r = _polys[p.id, linear] = (e, tuple(atoms), tuple(recips.items()), tuple(prods.items()), nl, p)
    return r


def _zfact(f, linear):
    """z3 formula of a fact, and the Polys in it."""
    k = (_key(f), linear)
    r = _facts.get(k)
    if r is None:
        if f[0] == "or":
            xs = [_zfact(x, linear) for x in f[1]]
            r = (z3().Or([x for x, _ in xs]), sum((y for _, y in xs), ()))
        else:
            q = _zpoly(f[1], linear)[0]
            op = f[0]
            r = (q <= 0 if op == "le" else q < 0 if op == "lt" else q == 0 if op == "eq" else q != 0,
                 (f[1],))
        _facts[k] = r
    return r


class _Conv:
    """Translation of one query: what has been mentioned so far."""

    def __init__(self, linear=False):
        self.linear = linear        # products are opaque values
        self.seen, self.extra, self.todo = set(), [], []
        self.nl = False

    def atom(self, a):
        if a not in self.seen:
            self.seen.add(a)
            self.todo.append(a)

    def poly(self, p):
        from . import terms as T
        if p in self.seen:
            return
        self.seen.add(p)
        _, atoms, recips, prods, nl, _ = _zpoly(p, self.linear)
        self.nl = self.nl or nl
        for a in atoms:
            self.atom(a)
        for (a, e), x in recips:
            if (a, e) in self.seen:
                continue
            self.seen.add((a, e))
            s = atom_sign(a, _relevant_atom(a))
            if s == "pos":
                self.extra.append(x > 0)
            if LEMMA[0] and s in ("pos", "neg"):
                self.atom(a)
                y = v = _var(a)
                for _ in range(-e - 1):
                    y = y * v
                self.extra.append(x * y == 1)
        for m, x in prods:
            if m in self.seen:
                continue
            self.seen.add(m)
            sg = sign(T._mkpoly({m: T.Q(1)}))
            if sg in ("pos", "nonneg"):
                self.extra.append(x > 0 if sg == "pos" else x >= 0)
            elif sg in ("neg", "nonpos"):
                self.extra.append(x < 0 if sg == "neg" else x <= 0)

    def fact(self, f):
        e, ps = _zfact(f, self.linear)
        for p in ps:
            self.poly(p)
        return e


def _relevant_atom(a):
    from . import terms as T
    return _relevant(T.P(a))


def atom_axioms(a, others):
    """Clauses that hold for an atom (with the other atoms present)."""
    from . import terms as T
    out = []
    pa = T.P(a)
    if a.kind == "br":
        out += [("le", T.neg(pa)), ("le", pa - 1)]
        op, p = a.a
        neg_ = ("lt", T.neg(p)) if op == "le" else ("ne", p)
        out.append(("or", [("le", pa), (op, p)]))
        out.append(("or", [("le", 1 - pa), neg_]))
    elif a.kind == "fn":
        n, args = a.a
        if n == "imod":
            out += [("or", [("le", args[1]), ("le", T.neg(pa))]),
                    ("or", [("le", args[1]), ("lt", pa - args[1])])]
            x, d = args
            out += [("or", [("lt", x), ("le", d - x), ("eq", pa - x)]),
                    ("or", [("lt", x - d), ("le", d * 2 - x), ("eq", pa - x + d)]),
                    ("or", [("le", T.neg(x)), ("lt", x + d), ("eq", pa - x - d)])]
        elif n == "idiv":
            x, d = args
            dq = T.mul(d, pa)
            out += [("or", [("le", d), ("le", dq - x)]), ("or", [("le", d), ("lt", x - dq - d)])]
            for b in others:
                if b is not a and b.kind == "fn" and b.a[0] == "idiv" and b.a[1][1] is d \
                        and b.id < a.id:
                    y, pb = b.a[1][0], T.P(b)
                    for u, v, qu, qv in ((x, y, pa, pb), (y, x, pb, pa)):
                        out += [("or", [("le", d), ("lt", v - u), ("le", qu - qv)]),
                                ("or", [("le", d), ("lt", v - u - d), ("le", qu + 1 - qv)])]
        elif n == "floor":
            out += [("le", pa - args[0]), ("lt", args[0] - pa - 1)]
        elif n == "sqrt":
            out += [("le", T.neg(pa)),
                    ("or", [("lt", args[0]), ("eq", T._mkpoly({T._mkmono(((a, 2),)): T.Q(1)}) - args[0])])]
        elif n == "abs":
            out += [("le", args[0] - pa), ("le", T.neg(args[0]) - pa)]
        elif n == "exp":
            out.append(("lt", T.neg(pa)))
    elif a.kind == "app":
        fam = T.FAM.get(a.a[0])
        if fam:
            if "facts" in fam:
                out += fam["facts"](a.a[1], pa)
            if fam.get("one"):
                for b in others:
                    if b is not a and b.kind == "app" and b.a[0] == a.a[0] and b.id < a.id:
                        i, j = a.a[1][0], b.a[1][0]
                        out.append(("or", [("eq", i - j), ("ne", pa - T.P(b))]))
                        out.append(("or", [("ne", i - j), ("eq", pa - T.P(b))]))
            if fam.get("inj"):
                for b in others:
                    if b is not a and b.kind == "app" and b.a[0] == a.a[0] and b.id < a.id:
                        i, j = a.a[1][0], b.a[1][0]
                        pb = T.P(b)
                        # i <= j  or  a - b >= i - j ; and symmetrically
                        out.append(("or", [("le", i - j), ("le", (i - j) - (pa - pb))]))
                        out.append(("or", [("le", j - i), ("le", (j - i) - (pb - pa))]))
                        out.append(("or", [("ne", i - j), ("eq", pa - pb)]))
    s = atom_sign(a, [])
    if s == "pos":
        out.append(("lt", T.neg(pa)))
    elif s == "nonneg":
        out.append(("le", T.neg(pa)))
    return out


_smt_memo = {}


def _smt(op, p, facts, linear=False, once=False):
    key = (op, p.id, frozenset(_key(f) for f in facts), LEMMA[0], linear, once)
    if key in _smt_memo:
        return _smt_memo[key]
    t0 = time.perf_counter()
    r = _smt_run(op, p, facts, linear, once)
    STATS["z3"] += 1
    STATS["z3_s"] += time.perf_counter() - t0
    _smt_memo[key] = r
    return r


def _smt_run(op, p, facts, linear=False, once=False):
    z = z3()
    cv = _Conv(linear)
    goal = cv.fact((op, p))
    hyp = [cv.fact(f) for f in facts]
    done = 0
    rounds = 0
    while done < len(cv.todo) and rounds < 4:
        batch = cv.todo[done:]
        done = len(cv.todo)
        rounds += 1
        for a in batch:
            for cl in atom_axioms(a, cv.todo):
                hyp.append(cv.fact(cl))
    hyp += cv.extra
    for g, ans in ((z.Not(goal), True), (goal, False))[:1 if once or LEMMA[0] else 2]:
        s = z.Solver()
        s.set("rlimit", 300000 if cv.nl else 600000)
        s.add(hyp)
        s.add(g)
        if s.check() == z.unsat:
            return ans
    return None


def consistent(facts=()):
    """False if the facts in force are contradictory, as far as z3 can tell."""
    z = z3()
    cv = _Conv(LINEAR[0])
    hyp = [cv.fact(f) for f in all_facts()] + [cv.fact(f) for f in facts]
    done = 0
    while done < len(cv.todo):
        batch = cv.todo[done:]
        done = len(cv.todo)
        for a in batch:
            for cl in atom_axioms(a, cv.todo):
                hyp.append(cv.fact(cl))
    hyp += cv.extra
    s = z.Solver()
    s.set("rlimit", 2000000)
    s.add(hyp)
    return s.check() != z.unsat
