"""Deciding that a difference is zero: brackets by cases, denominators, definitions."""
from . import ctx as C
from . import terms as T
from .terms import P, ONE, ZERO, mul, neg

COUNT = {"eq": 0, "cases": 0, "unfold": 0}
MAXDEPTH = 14


def is_zero(d, depth=0, unfolds=4):
    """True if d is identically zero under the facts in force."""
    if depth == 0 and not INDUCTING[0]:
        old, T.DEADLINE[0] = T.DEADLINE[0], T.clock() + LIMIT_S
        try:
            if zero(d, 0, unfolds):
                return True
            e = use_equalities(d)
            if e is not d and zero(e, 0, unfolds):
                return True
            if len(e.t) <= 60 and induction(e):
                return True
            return families(e, unfolds) or not C.consistent()
        except T.OutOfTime:
            COUNT["given up"] = COUNT.get("given up", 0) + 1
            return False
        finally:
            T.DEADLINE[0] = old
    return zero(d, depth, unfolds)


INDUCTING = [0]
LIMIT_S = 45        # processor seconds for one obligation; proofs here take a few seconds


def use_equalities(d):
    """Substitute symbols out by the equality facts in force."""
    for op, p in [f for f in C.all_facts() if f[0] == "eq"]:
        d = use_eq(d, op, p)
    for op, p in [f for f in C.all_facts() if f[0] == "le" and f[1].const() is None]:
        if C.decide("le", neg(p)) is True:          # both p <= 0 and p >= 0
            d = use_eq(d, "eq", p)
    return renorm(d)


def induction(d):
    """d = 0 for all values lo..K of a symbol K that bounds a sum: d(lo) = 0 and
    d(k + 1) - d(k) = 0.  The facts about K itself are not used for smaller k."""
    d = renorm(d)
    exts = []
    for a in T.atoms_in(d, {"sum"}):
        for e in T.extents(a):
            if len(e.t) == 1 and e.const() is None:
                (m, c), = e.t.items()
                if len(m.f) == 1 and m.f[0][1] == 1 and c == 1 and m.f[0][0].kind == "sym" \
                        and m.f[0][0] not in exts:
                    exts.append(m.f[0][0])
    for s in exts:
        lo = next((x for x in (1, 0) if C.decide("le", x - P(s)) is True), None)
        if lo is None:
            continue
        INDUCTING[0] += 1
        try:
            COUNT["induction"] = COUNT.get("induction", 0) + 1
            k = T.fresh("k")
            with C.assume([("le", lo - P(k)), ("le", P(k) + 1 - P(s))]):
                step = T.subst(d, {s: P(k) + 1}) - T.subst(d, {s: P(k)})
                if not zero(step, 0, 4):
                    continue
            if zero(T.subst(d, {s: T.num(lo)}), 0, 4):
                return True
        finally:
            INDUCTING[0] -= 1
    return False


def families(d, unfolds):
    """Replace a defined family by another one with which it agrees everywhere."""
    for _ in range(8):
        pair = next((x for x in candidates(d) if claim([x])), None)
        if pair is None:
            return False
        COUNT["families"] = COUNT.get("families", 0) + 1
        F, G = pair
        d = renorm(rename(d, F, G, lambda a: True))
        if zero(d, 0, unfolds):
            return True
    return False


def candidates(d):
    """Pairs of families applied to the same arguments, the later one first."""
    from .loops import DEFS, ORDER
    by = {}
    for a in T.atoms_in(d, {"app"}):
        if a.a[0] in DEFS:
            by.setdefault((ORDER[a.a[0]],) + tuple(x.id for x in a.a[1]), {})[a.a[0]] = len(a.a[1])
    out = []
    for fs in by.values():
        fs = sorted(fs, key=lambda f: [int(x) for x in __import__("re").findall("[0-9]+", f)])
        for i, G in enumerate(fs):
            for F in fs[i + 1:]:
                if (F, G) not in out:
                    out.append((F, G))
    arity = {f: n for fs in by.values() for f, n in fs.items()}
    ARITY.update(arity)
    return out


ARITY = {}


def rename(d, F, G, when):
    def leaf(a):
        if a.kind == "app" and a.a[0] == F and when(a):
            return T.app(G, tuple(T.rewrite(x, leaf) for x in a.a[1]))
        return None
    return T.rewrite(d, leaf)


def claim(pairs, tried=None):
    """All the pairs of families are equal, by strong induction on the step index."""
    from .loops import DEFS, ORDER
    tried = set(pairs) if tried is None else tried
    todo = 0
    while todo < len(pairs):
        F, G = pairs[todo]
        pos, sg = ORDER[F]
        args = tuple(P(T.fresh("u")) for _ in range(ARITY[F]))
        with C.assume([("le", neg(x)) for x in args]):
            d = DEFS[F](args) - DEFS[G](args)
            j = T.scale(args[pos], sg)

            def before(a):
                k = (T.scale(a.a[1][ORDER[a.a[0]][0]], sg) - j).const()
                return k is not None and k < 0
            for f, g in pairs:
                d = rename(d, f, g, before)
            ok = zero(d, 0, 0)
            while not ok:          # another family which agrees by itself
                own = next((x for x in candidates(renorm(d)) if x not in pairs and x not in tried
                            and (tried.add(x) or claim([x], tried))), None)
                if own is None:
                    break
                d = rename(d, *own, lambda a: True)
                ok = zero(d, 0, 0)
            if not ok:
                new = next((x for x in candidates(renorm(d)) if x not in pairs
                            and ORDER[x[0]][1] == sg), None)
                if new is None or len(pairs) >= 4:
                    return False
                pairs = pairs + [new]
                todo = 0
                continue
        todo += 1
    return True


def zero(d, depth=0, unfolds=4):
    COUNT["eq"] += 1
    d = renorm(d)
    if not d.t:
        return True
    if d.const() is not None:
        return not C.consistent()
    if depth > MAXDEPTH:
        return False
    b = free_bracket(d)
    if b is not None:
        COUNT["cases"] += 1
        op, p = b.a
        yes, no = T.cases(d, b)
        with C.assume([(op, p)]):
            if not contradictory() and not zero(use_eq(yes, op, p), depth + 1, unfolds):
                return False
        from .val import negate
        with C.assume([negate((op, p))]):
            if not contradictory() and not zero(no, depth + 1, unfolds):
                return False
        return True
    e = clear_inv(d)
    if e is not None:
        return zero(e, depth + 1, unfolds)
    e = chol_pivots(d)
    if e is not None:
        return zero(e, depth + 1, unfolds)
    if unfolds and (unfolds == 4 or len(d.t) <= 40):
        e = unfold(d)
        if e is not None:
            COUNT["unfold"] += 1
            return zero(e, depth + 1, unfolds - 1)
    return by_cases_inside(d, depth, unfolds)


def contradictory():
    return not C.consistent()


def renorm(d):
    return T.rewrite(d, lambda a: None)


def use_eq(p, op, q):
    """Substitute a variable out if the case is an equality that is linear in it."""
    if op == "le" and len(q.t) <= 3 and C.decide("le", neg(q)) is True:
        op = "eq"
    if op != "eq":
        return p
    for m, c in q.t.items():
        if len(m.f) == 1 and m.f[0][1] == 1 and m.f[0][0].kind == "sym" \
                and (c in (1, -1) or not m.f[0][0].isint):
            s = m.f[0][0]
            rest = T._mkpoly({k: v for k, v in q.t.items() if k is not m})
            if s in T.free(rest):
                continue
            return T.subst(p, {s: T.scale(rest, -1 / T.Q(c))})
    return p


def free_bracket(d):
    """A bracket atom of d outside sums (directly, in exponents' factors or arguments)."""
    for m in sorted(d.t, key=lambda m: m.id if hasattr(m, "id") else 0):
        for a, _ in m.f:
            if a.kind == "br":
                return a
    return None


def inner_brackets(d):
    """Brackets inside atoms of d (arguments of functions, sum bodies) without bound
    variables."""
    out = []
    for a in T.atoms_in(d, {"br"}):
        if not any(x.kind == "dum" for x in a.fv) and not has_dum(a.a[1]):
            out.append(a)
    return out


def has_dum(p):
    return any(a.kind == "dum" for a in T.atoms_in(p, {"dum"}))


def by_cases_inside(d, depth, unfolds):
    bs = inner_brackets(d)
    if not bs:
        return False
    COUNT["cases"] += 1
    b = bs[0]
    op, p = b.a
    from .val import negate
    with C.assume([(op, p)]):
        if not contradictory():
            if not zero(use_eq(renorm(d), op, p), depth + 1, unfolds):
                return False
    with C.assume([negate((op, p))]):
        if not contradictory():
            if not zero(renorm(d), depth + 1, unfolds):
                return False
    return True


def clear_inv(d):
    """Multiply by the denominators: inv(p) atoms, and negative powers."""
    dens = {}
    for m in d.t:
        for a, e in m.f:
            if a.kind == "fn" and a.a[0] == "inv" and e > 0:
                dens[a] = max(dens.get(a, 0), e)
    if not dens:
        return None
    a, e = max(dens.items(), key=lambda x: (x[0].h, x[0].id))
    den = a.a[1][0]
    out = []
    for m, c in d.t.items():
        f = dict(m.f)
        k = f.pop(a, 0)
        out.append(T.scale(mul(T.product(f), T.power(den, e - k)), c))
    return T.addall(out)


def chol_pivots(d):
    """Products with a diagonal entry of a Cholesky factor or of its inverse (constant
    indices): sum_{k<=i} L[j,k] L[i,k] = A[j,i],  sum_{k>=i} W[k,i] W[k,j] = inv(A)[i,j]."""
    from .linalg import _entry
    for m, c in d.t.items():
        f = dict(m.f)
        ch = [a for a in f if a.kind == "fun" and a.a[0] in ("chol", "cinv") and f[a] > 0 and
              all(q.const() is not None for q in a.a[5]) and a.a[2][0].const() is not None]
        for a in ch:
            i, k = (int(q.const()) for q in a.a[5])
            if i != k:
                continue
            inv = a.a[0] == "cinv"
            for b in ch:
                if b.a[:5] != a.a[:5] or (b is a and f[a] < 2):
                    continue
                p, q = (int(x.const()) for x in b.a[5])
                if (p if inv else q) != i:
                    continue
                j = q if inv else p
                _, d2, s2, p2, _ = T.fun_open(a)
                mk = lambda n, x, y: T.mkfun(n, d2, s2, p2, (T.num(x), T.num(y)))
                if inv:
                    r = mk("inv", i, j)
                    for y in range(i + 1, int(d2[0].const())):
                        r = r - mul(mk("cinv", y, i), mk("cinv", y, j))
                else:
                    r = _entry(a, T.num(j), T.num(i))
                    for y in range(i):
                        r = r - mul(mk("chol", j, y), mk("chol", i, y))
                g = dict(f)
                for x in (a, b):
                    g[x] -= 1
                    if not g[x]:
                        del g[x]
                rest = T._mkpoly({q: e for q, e in d.t.items() if q is not m})
                return rest + T.scale(mul(T.product(g), r), c)
    return None


def unfold(d):
    """Unfold the defined families at their highest step index."""
    from .loops import DEFS, ORDER
    cand = [a for a in T.atoms_in(d, {"app"}) if a.a[0] in DEFS and not has_dum_step(a, ORDER)]
    if not cand:
        return None

    def key(a):
        pos, sg = ORDER[a.a[0]]
        return T.scale(a.a[1][pos], sg)
    top = []
    for a in cand:
        ka = key(a)
        if not any((key(b) - ka).const() is not None and (key(b) - ka).const() > 0 for b in cand):
            top.append(a)
    sel = set(top)
    steps = {(a.a[0], key(a).id) for a in top}
    hit = [0]

    def leaf(a):
        if a.kind == "app" and a.a[0] in DEFS and (a.a[0], key(a).id) in steps:
            hit[0] += 1
            return DEFS[a.a[0]](a.a[1])
        return None
    r = T.rewrite(d, leaf)
    return r if hit[0] and r is not d else None


def has_dum_step(a, order):
    return has_dum(a.a[1][order[a.a[0]][0]])
