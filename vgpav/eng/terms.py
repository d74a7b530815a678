"""Terms: polynomials over interned atoms, with bounded sums as atoms.

A Poly is a finite map {Mono: rational}, a Mono a product of atoms with integer
exponents (negative: division).  A bounded sum

    sum_{d0 in [0,e0)} sum_{d1 in [0,e1)} ... of a product of atoms

is an atom ("sum", (e0, e1, ..), ((atom, exp), ...)); bound variables are numbered by
(height, position), so sums equal up to renaming are the same object.  For a
negative extent n the sum stands for -(sum over [n, 0)), so prefix sums may be shifted
freely; facts on a bound variable are used only where its extent is known to be >= 0.
"""
import itertools
import time
import math
from fractions import Fraction as Q
from math import gcd

from . import ctx as C

_atoms, _monos, _polys = {}, {}, {}


class OutOfTime(Exception):
    pass


DEADLINE = [None]
clock = time.process_time


class Unsupported(Exception):
    """The verifier does not understand this construct."""


class Atom:
    __slots__ = ("kind", "a", "id", "isint", "h", "fv", "apps")

    def __repr__(self):
        return show_atom(self)


class Mono:
    __slots__ = ("f", "id", "fv", "h", "apps")


class Poly:
    __slots__ = ("t", "id", "_fv", "_h", "_int", "_apps")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(P(o)))

    def __rsub__(self, o):
        return add(P(o), neg(self))

    def __mul__(self, o):
        return mul(self, P(o))
    __rmul__ = __mul__

    def __neg__(self):
        return neg(self)

    def const(self):
        """The rational value if constant, else None."""
        if not self.t:
            return Q(0)
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m is ONE_M:
                return c
        return None


_E = frozenset()


def _mkatom(kind, a, isint, h, fv, apps=_E):
    key = (kind, a)
    x = _atoms.get(key)
    if x is None:
        x = Atom()
        x.kind, x.a, x.isint, x.h, x.id = kind, a, isint, h, len(_atoms)
        x.fv = frozenset((x,)) if fv is None else fv
        x.apps = apps
        _atoms[key] = x
    return x


def _mkmono(f):
    m = _monos.get(f)
    if m is None:
        m = Mono()
        m.f, m.id = f, len(_monos)
        m.h = max((a.h for a, _ in f), default=0)
        m.fv = frozenset().union(*[a.fv for a, _ in f])
        m.apps = frozenset().union(*[a.apps for a, _ in f])
        _monos[f] = m
    return m


def _mkpoly(t):
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t, p.id, p._fv, p._h, p._int, p._apps = t, len(_polys), None, None, None, None
        _polys[key] = p
    return p


ONE_M = _mkmono(())
ZERO = _mkpoly({})
ONE = _mkpoly({ONE_M: Q(1)})


def num(c):
    c = Q(c)
    return _mkpoly({ONE_M: c}) if c else ZERO


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _mkpoly({_mkmono(((x, 1),)): Q(1)})
    if isinstance(x, float):
        return num(Q(repr(x)))
    return num(x)


_sc = {}


def split_const(p):
    """(p without its constant, the constant)."""
    r = _sc.get(p.id)
    if r is None:
        c = p.t.get(ONE_M)
        r = _sc[p.id] = (p, Q(0)) if c is None else (
            _mkpoly({m: x for m, x in p.t.items() if m is not ONE_M}), c)
    return r


def free(p):
    """Free symbols and dummies."""
    if p._fv is None:
        p._fv = frozenset().union(*[m.fv for m in p.t])
    return p._fv


def apps(p):
    """Names of the families applied anywhere inside."""
    if p._apps is None:
        p._apps = frozenset().union(*[m.apps for m in p.t])
    return p._apps


def height(p):
    if p._h is None:
        p._h = max((m.h for m in p.t), default=0)
    return p._h


def dum(h, i):
    return _mkatom("dum", (h, i), True, 0, None)


def sym(name, isint=False):
    return _mkatom("sym", (name, isint), isint, 0, None)


_fresh = itertools.count()


def fresh(prefix="t", isint=True):
    return sym("%s!%d" % (prefix, next(_fresh)), isint)


# families of applied symbols: name -> dict(isint, sym=(i, j) symmetric index pair,
#   inj=True strictly increasing in its only index, one=True one-to-one, facts=f(idx) -> clauses)
FAM = {}


def app(name, idx):
    idx = tuple(P(i) for i in idx)
    fam = FAM.get(name)
    isint = False
    if fam:
        isint = fam.get("isint", False)
        s = fam.get("sym")
        if s and idx[s[0]].id > idx[s[1]].id:
            l = list(idx)
            l[s[0]], l[s[1]] = l[s[1]], l[s[0]]
            idx = tuple(l)
    return P(app_atom(name, idx, isint))


def _meta(ps):
    fv = frozenset().union(*[free(p) for p in ps])
    ap = frozenset().union(*[apps(p) for p in ps])
    return max([height(p) for p in ps], default=0), fv, ap


def app_atom(name, idx, isint):
    h, fv, ap = _meta(idx)
    return _mkatom("app", (name, idx), isint, h, fv, ap | {name})


def fn_atom(name, args, isint=False):
    h, fv, ap = _meta(args)
    return _mkatom("fn", (name, args), isint, h, fv, ap)


def br_atom(op, p):
    return _mkatom("br", (op, p), True, height(p), free(p), apps(p))


# array functionals: ("fun", (name, h, dims, nb, params, idx)); the params are Polys over
# the placeholders dum(h, 0..nb-1), h one above everything inside.  name(A)[idx].
FUN_SYM = set()       # functionals symmetric in their two indices


def fun(name, dims, syms, params, idx):
    """name(A)[idx] for arrays A given by params over the int symbols syms."""
    dims = tuple(P(d) for d in dims)
    h = 1 + max([height(p) for p in params] + [height(d) for d in dims] + [0])
    m = {s: P(dum(h, i)) for i, s in enumerate(syms)}
    params = tuple(subst(p, m) for p in params)
    return _fun(name, h, dims, len(syms), params, tuple(P(i) for i in idx))


def _fun(name, h, dims, nb, params, idx):
    if name in FUN_SYM and len(idx) == 2 and idx[0].id > idx[1].id:
        idx = (idx[1], idx[0])
    _, fv, ap = _meta(params + dims)
    fv = fv - {dum(h, i) for i in range(nb)}
    h2, fv2, ap2 = _meta(idx)
    return P(_mkatom("fun", (name, h, dims, nb, params, idx), False, max(h, h2),
                     fv | fv2, ap | ap2 | {name}))


def fun_open(a):
    """(name, dims, syms, params, idx) of a functional atom with fresh syms."""
    name, h, dims, nb, params, idx = a.a
    ss = [fresh("#") for _ in range(nb)]
    m = {dum(h, i): P(s) for i, s in enumerate(ss)}
    return name, dims, ss, tuple(subst(p, m) for p in params), idx


# ---------------------------------------------------------------- arithmetic
def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    return _mkpoly(t)


def addall(ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            v = t.get(m)
            v = c if v is None else v + c
            if v:
                t[m] = v
            elif m in t:
                del t[m]
    return _mkpoly(t)


def neg(p):
    return _mkpoly({m: -c for m, c in p.t.items()})


def scale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return _mkpoly({m: v * c for m, v in p.t.items()})


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    c = p.const()
    if c is not None:
        return scale(q, c)
    c = q.const()
    if c is not None:
        return scale(p, c)
    t = {}
    for m, c in p.t.items():
        for n, d in q.t.items():
            r = _mulmono(m, n)
            cd = c * d
            for k, e in r.t.items():
                v = t.get(k)
                v = e * cd if v is None else v + e * cd
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
    return _mkpoly(t)


_mm = {}


def _mulmono(m, n):
    if m is ONE_M:
        return _mkpoly({n: Q(1)})
    if n is ONE_M:
        return _mkpoly({m: Q(1)})
    if m.id > n.id:
        m, n = n, m
    r = _mm.get((m, n))
    if r is None:
        f = dict(m.f)
        for a, e in n.f:
            f[a] = f.get(a, 0) + e
        r = _mm[(m, n)] = product(f)
    return r


def product(f):
    """Product of atoms {atom: exp} (normalises special atoms)."""
    extra = None
    g = {}
    for a, e in f.items():
        if e == 0:
            continue
        if a.kind == "br":
            e = 1
        elif a.kind == "fn" and a.a[0] == "sqrt" and abs(e) >= 2:
            k = int(e / 2)
            x = power(a.a[1][0], k)
            extra = x if extra is None else mul(extra, x)
            e -= 2 * k
            if not e:
                continue
        elif a.kind == "fn" and a.a[0] == "inv" and e < 0:
            x = power(a.a[1][0], -e)
            extra = x if extra is None else mul(extra, x)
            continue
        g[a] = e
    r = _mkpoly({_mkmono(tuple(sorted(g.items(), key=lambda z: z[0].id))): Q(1)})
    return r if extra is None else mul(r, extra)


def power(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return power(recip(p), -n)
    r = p
    for _ in range(n - 1):
        r = mul(r, p)
    return r


def recip(p):
    if not p.t:
        raise ZeroDivisionError("division by zero")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a.kind == "br" for a, _ in m.f):
            r = product({a: -e for a, e in m.f})
            return scale(r, 1 / c)
    lead = p.t[min(p.t, key=lambda m: m.id)]
    return scale(P(fn_atom("inv", (scale(p, 1 / lead),))), 1 / lead)


_quot = {}


def quotient(p, g):
    """h with p = g * h exactly, found by division with monomials ordered lexicographically
    (exponents may be negative); None if there is none."""
    r = _quot.get((p, g), 0)
    if r == 0:
        r = _quot[p, g] = _quotient(p, g)
    return r


def _quotient(p, g):
    if len(g.t) < 2 or len(p.t) < len(g.t) or not any(m.f for m in p.t):
        return None
    at = sorted({a for q in (p, g) for m in q.t for a, _ in m.f}, key=lambda a: a.id)

    def order(m):
        d = dict(m.f)
        return tuple(d.get(a, 0) for a in at)
    lead = max(g.t, key=order)
    if not {a for m in g.t for a, _ in m.f} <= {a for m in p.t for a, _ in m.f}:
        return None
    h, rest = ZERO, p
    for _ in range(len(p.t)):
        if not rest.t:
            break
        top = max(rest.t, key=lambda m: tuple(dict(m.f).get(a, 0) for a in at))
        e = dict(top.f)
        for a, k in lead.f:
            e[a] = e.get(a, 0) - k
        x = scale(product(e), rest.t[top] / g.t[lead])
        y = rest - mul(g, x)
        if top in y.t:
            return None
        h, rest = h + x, y
        if len(rest.t) > 4 * len(p.t):
            return None
    return h if not rest.t and len(h.t) <= len(p.t) else None


# -------------------------------------------------------------- substitution
def subst(p, mp):
    """Simultaneous substitution {atom: Poly} for free symbols and dummies."""
    keys = mp.keys()
    if not (free(p) & keys):
        return p
    out = []
    for m, c in p.t.items():
        if m.fv & keys:
            out.append(scale(_subst_mono(m, mp), c))
        else:
            out.append(_mkpoly({m: c}))
    return addall(out)


def _subst_mono(m, mp):
    keys = mp.keys()
    r = ONE
    g = {}
    for a, e in m.f:
        if a.fv & keys:
            x = subst_atom(a, mp)
            if not x.t:
                return ZERO
            r = mul(r, power(x, e))
        else:
            g[a] = e
    return mul(product(g), r) if g else r


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if not (a.fv & mp.keys()):
        return P(a)
    k = a.kind
    if k == "app":
        return app(a.a[0], [subst(i, mp) for i in a.a[1]])
    if k == "fn":
        return mkfn(a.a[0], [subst(i, mp) for i in a.a[1]])
    if k == "br":
        return bracket(a.a[0], subst(a.a[1], mp))
    if k == "sum":
        bs, f = open_sum(a)
        with C.binders(bs):
            body = ONE
            g = {}
            for b, e in f.items():
                if b.fv & mp.keys():
                    body = mul(body, power(subst_atom(b, mp), e))
                else:
                    g[b] = e
            body = mul(body, product(g))
        return close_poly([(v, subst(x, mp)) for v, x in bs], body)
    if k == "fun":
        name, h, dims, nb, params, idx = a.a
        if any(free(p) & mp.keys() for p in params + dims):
            name, dims, ss, params, idx = fun_open(a)
            dims = [subst(d, mp) for d in dims]
            with C.binders(list(zip(ss, dims))):
                params = [subst(p, mp) for p in params]
            return mkfun(name, dims, ss, params, [subst(i, mp) for i in idx])
        return _fun(name, h, dims, nb, params, tuple(subst(i, mp) for i in idx))
    return P(a)


MKFUN = {}        # name -> normaliser (dims, syms, params, idx) -> Poly or None


def at_deltas(p, syms):
    """In each product with a factor [v == e], v among syms, e is put for v elsewhere."""
    out, changed = {}, []
    for m, c in p.t.items():
        hit = None
        for a, e in m.f:
            if a.kind == "br" and a.a[0] == "eq":
                for v in syms:
                    if v in a.fv:
                        cf = _linear(a.a[1], v)
                        if cf and abs(cf[0]) == 1:
                            hit = a, v, scale(neg(cf[1]), 1 / cf[0])
                            break
            if hit:
                break
        if hit:
            a, v, e = hit
            rest = _mkpoly({_mkmono(tuple(x for x in m.f if x[0] is not a)): c})
            if v in free(rest):
                changed.append(mul(P(a), subst(rest, {v: e})))
                continue
        out[m] = c
    return addall([_mkpoly(out)] + changed) if changed else p


def mkfun(name, dims, syms, params, idx):
    one = {s: ZERO for s, d in zip(syms, dims) if d.const() == 1}
    if one:                                # an index below 1 is 0
        params = [subst(q, one) for q in params]
    if len(syms):
        params = [at_deltas(q, syms) for q in params]
    f = MKFUN.get(name)
    if f:
        r = f(dims, syms, params, idx)
        if r is not None:
            return r
    return fun(name, dims, syms, params, idx)


def rewrite(p, leaf):
    """Replace app/fun/fn atoms a (bottom-up) for which leaf(a) gives a Poly."""
    memo = {}

    def atom(a):
        r = memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "app":
            b = app(a.a[0], [poly(i) for i in a.a[1]])
        elif k == "fn":
            b = mkfn(a.a[0], [poly(i) for i in a.a[1]])
        elif k == "br":
            b = bracket(a.a[0], poly(a.a[1]))
        elif k == "sum":
            bs, f = open_sum(a)
            with C.binders(bs):
                body = ONE
                for b, e in f.items():
                    body = mul(body, power(atom(b), e))
            nb = []
            for v, x in bs:
                with C.binders(nb):
                    x = poly(x)
                nb.append((v, x))
            b = close_poly(nb, body)
        elif k == "fun":
            name, dims, ss, params, idx = fun_open(a)
            dims = [poly(d) for d in dims]
            with C.binders(list(zip(ss, dims))):
                params = [poly(q) for q in params]
            b = mkfun(name, dims, ss, params, [poly(i) for i in idx])
        else:
            b = P(a)
        if len(b.t) == 1 and k != "sum":
            (m, c), = b.t.items()
            if c == 1 and len(m.f) == 1 and m.f[0][1] == 1:
                r = leaf(m.f[0][0])
                if r is not None:
                    b = r
        memo[a] = b
        return b

    def poly(q):
        out = []
        for m, c in q.t.items():
            r = num(c)
            for a, e in m.f:
                r = mul(r, power(atom(a), e))
            out.append(r)
        return addall(out)
    return poly(p)


def atoms_in(p, kinds=None, deep=True):
    """All atoms occurring in p (inside sums as well, with dummies)."""
    seen, out = set(), []

    def poly(q):
        for m in q.t:
            for a, _ in m.f:
                atom(a)

    def atom(a):
        if a in seen:
            return
        seen.add(a)
        if kinds is None or a.kind in kinds:
            out.append(a)
        if not deep:
            return
        k = a.kind
        if k in ("app", "fn"):
            for i in a.a[1]:
                poly(i)
        elif k == "br":
            poly(a.a[1])
        elif k == "sum":
            for b, _ in a.a[1]:
                atom(b)
            for e in a.a[0]:
                poly(e)
        elif k == "fun":
            for q in a.a[2] + a.a[4] + a.a[5]:
                poly(q)
    poly(p)
    return out


# ------------------------------------------------------------------ brackets
def isint(p):
    if p._int is None:
        p._int = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m.f)
                     for m, c in p.t.items())
    return p._int


def canon_cmp(op, p):
    """Normalise an integer comparison p op 0, op in {'le','eq'}: (op, poly, positive)."""
    g, den = 0, 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    for m, c in p.t.items():
        if m is not ONE_M:
            g = gcd(g, int(c * den))
    if g == 0:
        return op, p, True
    c0 = p.t.get(ONE_M, Q(0)) * den
    q = {m: Q(int(c * den) // g) for m, c in p.t.items() if m is not ONE_M}
    lead = q[min(q, key=lambda m: m.id)]
    if op == "eq":
        if c0 % g:
            return "eq", ONE, True          # never
        if c0:
            q[ONE_M] = Q(c0 // g)
        r = _mkpoly(q)
        return "eq", (neg(r) if lead < 0 else r), True
    k = -((-c0) // g)                       # ceil
    if k:
        q[ONE_M] = Q(k)
    r = _mkpoly(q)
    if lead > 0:
        return "le", r, True
    return "le", add(ONE, neg(r)), False    # not (1 - r <= 0)


def _split_br(p):
    """p with brackets inside (case values): [(weight bracket product, value poly)] is not
    attempted; comparisons of bracketed values stay opaque."""
    return any(a.kind == "br" for m in p.t for a, _ in m.f)


def bracket(op, p):
    """The Iverson bracket [p op 0] as a Poly, decided where possible."""
    c = p.const()
    if c is not None:
        return num(int(c <= 0 if op == "le" else c == 0 if op == "eq" else c < 0))
    if _split_br(p):
        # expand over the brackets in p: value by value
        a = next(a for m in p.t for a, _ in m.f if a.kind == "br")
        on, off = cases(p, a)
        b = P(a)
        return mul(b, bracket(op, on)) + mul(ONE - b, bracket(op, off))
    if op == "lt":
        if isint(p):
            return bracket("le", p + 1)
        d = C.decide("lt", p)
        return num(int(d)) if d is not None else ONE - bracket("le", neg(p))
    if isint(p):
        op, q, pos = canon_cmp(op, p)
        c = q.const()
        if c is not None:
            v = c <= 0 if op == "le" else c == 0
            return num(int(v == pos))
    else:
        lead = p.t[min(p.t, key=lambda m: m.id)]
        q, pos = scale(p, 1 / abs(lead)), True
        if op == "eq" and lead < 0:
            q = neg(q)
    q2 = _inj(op, q)
    if q2 is not None:
        return q2 if pos else ONE - q2
    d = C.decide(op, q)
    if d is not None:
        return num(int(d == pos))
    a = P(br_atom(op, q))
    return a if pos else ONE - a


def cases(p, a):
    """(p with bracket atom a = 1, p with a = 0), at the top level of the monomials."""
    on, off = [], []
    for m, c in p.t.items():
        f = dict(m.f)
        if a in f:
            del f[a]
            on.append(_mkpoly({_mkmono(tuple(sorted(f.items(), key=lambda z: z[0].id))): c}))
        else:
            q = _mkpoly({m: c})
            on.append(q)
            off.append(q)
    return addall(on), addall(off)


def _inj(op, q):
    """[o(a) - o(b) op 0] for a strictly increasing family o is [a - b op 0]."""
    if len(q.t) != 2 or ONE_M in q.t:
        return None
    (m1, c1), (m2, c2) = q.t.items()
    if {c1, c2} != {1, -1} or len(m1.f) != 1 or len(m2.f) != 1:
        return None
    a, b = m1.f[0][0], m2.f[0][0]
    if a.kind != "app" or b.kind != "app" or a.a[0] != b.a[0] or m1.f[0][1] != 1 \
            or m2.f[0][1] != 1:
        return None
    fam = FAM.get(a.a[0])
    if not fam or not (fam.get("inj") or op == "eq" and fam.get("one")):
        return None
    d = scale(a.a[1][0] - b.a[1][0], c1)
    return bracket(op, d)


# ------------------------------------------------------------ special atoms
def mkfn(name, args):
    f = FN.get(name)
    args = tuple(P(a) for a in args)
    if f:
        r = f(args)
        if r is not None:
            return r
    return P(fn_atom(name, args, name in INTFN))


INTFN = {"floor", "imod", "idiv"}


def _fn_inv(args):
    return recip(args[0])


def _single(p):
    """(coefficient, {atom: exp}) of a one-term Poly, else None."""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    return c, m.f


def positive(p):
    return C.decide("lt", neg(p)) is True


def _fn_sqrt(args):
    p = args[0]
    c = p.const()
    if c is not None:
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(Q(a, b))
        if b * b != c.denominator:
            # sqrt(n/d) = sqrt(n d)/d
            return scale(mkfn("sqrt", (num(c.numerator * c.denominator),)), Q(1, c.denominator))
        return None
    s = _single(p)
    if s is None:
        br = [a for m in p.t for a, _ in m.f if a.kind == "br"]
        if br:
            on, off = cases(p, br[0])
            b = P(br[0])
            return mul(b, mkfn("sqrt", (on,))) + mul(ONE - b, mkfn("sqrt", (off,)))
        return None
    c, f = s
    if c < 0:
        return None
    brs = [a for a, _ in f if a.kind == "br"]
    rest = [(a, e) for a, e in f if a.kind != "br"]
    if not brs and c == 1 and len(rest) == 1 and rest[0][1] == 1:
        return None
    out = product({a: 1 for a in brs})
    for a, e in rest:
        if not positive(P(a)):
            if len(rest) == 1 and e == 1:
                continue
            # keep the non-bracket part together
            if not brs and c == 1:
                return None
            w = product(dict(rest))
            out = mul(out, P(fn_atom("sqrt", (w,))))
            rest = []
            break
    for a, e in rest:
        k = e // 2
        if k:
            out = mul(out, power(P(a), k))
        if e - 2 * k:
            out = mul(out, P(fn_atom("sqrt", (P(a),))))
    if c != 1:
        out = mul(out, mkfn("sqrt", (num(c),)))
    return out


def _factors(c):
    """Prime factorisation of a small positive rational: [(prime, exponent)]."""
    out = []
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        if n > 10 ** 6:
            return None
        q = 2
        while n > 1:
            e = 0
            while n % q == 0:
                n //= q
                e += 1
            if e:
                out.append((Q(q), sg * e))
            q += 1
    return out


def _fn_log(args):
    p = args[0]
    c = p.const()
    if c == 1:
        return ZERO
    if c is not None and c > 0:
        fs = _factors(c)
        if fs is None or fs == [(c, 1)]:
            return None
        return addall([scale(P(fn_atom("log", (num(q),))), Q(e)) for q, e in fs])
    s = _single(p)
    if s is None:
        return None
    c, f = s
    if c > 0 and (len(f) > 1 or c != 1 or (f and f[0][1] != 1)):
        if f and all(a.kind != "br" and positive(P(a)) for a, e in f):
            r = [scale(mkfn("log", (P(a),)), Q(e)) for a, e in f]
            if c != 1:
                r.append(mkfn("log", (num(c),)))
            return addall(r)
    if c == 1 and len(f) == 1 and f[0][1] == 1:
        a = f[0][0]
        if a.kind == "fn" and a.a[0] == "sqrt":
            return scale(mkfn("log", a.a[1]), Q(1, 2))
        if a.kind == "fn" and a.a[0] == "exp":
            return a.a[1][0]
    return None


def _fn_abs(args):
    p = args[0]
    c = p.const()
    if c is not None:
        return num(abs(c))
    if C.decide("le", p) is True:
        return neg(p)
    if C.decide("le", neg(p)) is True:
        return p
    lead = p.t[min(p.t, key=lambda m: m.id)]
    if lead < 0:
        return mkfn("abs", (neg(p),))
    return None


def _fn_max(args):
    a, b = args
    d = C.decide("le", a - b)
    if d is True:
        return b
    if C.decide("le", b - a) is True or d is False:
        return a
    c = bracket("le", a - b)
    return mul(c, b) + mul(ONE - c, a)


def _fn_min(args):
    a, b = args
    return a + b - _fn_max(args)


def _fn_floor(args):
    p = args[0]
    if isint(p):
        return p
    c = p.const()
    if c is not None:
        return num(c.numerator // c.denominator)
    ip, rp = {}, {}
    for m, c in p.t.items():
        q = _mkpoly({m: c})
        if isint(q):
            ip[m] = c
        else:
            rp[m] = c
    if ip:
        return add(_mkpoly(ip), mkfn("floor", (_mkpoly(rp),)))
    d = C.decide
    if d("le", neg(p)) is True and d("lt", p - 1) is True:
        return ZERO
    return None


def _fn_imod(args):
    p, n = args
    t, ch = [], False
    for m, c in p.t.items():
        if len(m.f) == 1 and m.f[0][1] == 1 and c.denominator == 1:
            a = m.f[0][0]
            if a.kind == "fn" and a.a[0] == "imod" and a.a[1][1] is n:
                t.append(scale(a.a[1][0], c))
                ch = True
                continue
            if P(a) is n:
                ch = True
                continue
        t.append(_mkpoly({m: c}))
    if ch:
        return mkfn("imod", (addall(t), n))
    d = C.decide
    for k in (0, 1, -1, 2, -2):
        r = p - scale(n, k)
        if d("le", neg(r)) is True and d("lt", r - n) is True:
            return r
    c, k = p.const(), n.const()
    if c is not None and k is not None:
        return num(int(c) % int(k))
    return None


def _fn_idiv(args):
    p, n = args
    q, r = divsplit(p, n)
    return q


def divsplit(e, d):
    """e = q*d + r with 0 <= r < d, syntactically; (None, None) if not found."""
    c = d.const()
    if c is not None:
        if c == 1:
            return e, ZERO
        qs, rs = [], []
        for m, k in e.t.items():
            qi = int(k) // int(c) if k.denominator == 1 else 0
            if qi:
                qs.append(_mkpoly({m: Q(qi)}))
            if k - qi * c:
                rs.append(_mkpoly({m: k - qi * c}))
        q, r = addall(qs), addall(rs)
    else:
        s = _single(d)
        if s is None or s[0] != 1 or any(x < 0 for _, x in s[1]):
            s = None
        qs, rs = [], [] if s else [e]
        for m, k in e.t.items() if s else ():
            f = dict(m.f)
            if all(f.get(a, 0) >= x for a, x in s[1]):
                for a, x in s[1]:
                    f[a] -= x
                qs.append(scale(product(f), k))
            else:
                rs.append(_mkpoly({m: k}))
        q, r = addall(qs), addall(rs)
    dec = C.decide
    for k in (0, 1, -1):
        r2 = r - scale(d, k)
        if dec("le", neg(r2)) is True and dec("lt", r2 - d) is True:
            return q + k, r2
    return None, None


def _fn_pi(args):
    return None


FN = {"inv": _fn_inv, "sqrt": _fn_sqrt, "log": _fn_log, "abs": _fn_abs, "floor": _fn_floor,
      "imod": _fn_imod, "idiv": _fn_idiv, "max": _fn_max, "min": _fn_min}


# ------------------------------------------------------------ bounded sums
def open_sum(a):
    """([(fresh sym, ext)], {atom: exp}) of a sum atom."""
    es, fs = a.a
    h = a.h
    ss = [fresh("b") for _ in es]
    mp = {dum(h, i): P(s) for i, s in enumerate(ss)}
    bs = [(s, subst(e, mp)) for s, e in zip(ss, es)]
    f = {}
    with C.binders(bs):
        for b, e in fs:
            if b.fv & mp.keys():
                b = _only_atom(_rename(b, mp))
            f[b] = f.get(b, 0) + e
    return bs, f


def _only_atom(p):
    (m, c), = p.t.items()
    assert c == 1 and len(m.f) == 1 and m.f[0][1] == 1, p
    return m.f[0][0]


def _rename(a, mp):
    """Substitution of dummies by symbols or back that keeps every atom an atom."""
    return subst_raw(a, mp)


def subst_raw(a, mp):
    """Renaming only: mp maps atoms to single-atom Polys; no simplification."""
    if a in mp:
        return mp[a]
    if not (a.fv & mp.keys()):
        return P(a)
    k = a.kind
    if k == "app":
        return P(app_atom_raw(a.a[0], tuple(_raw_poly(i, mp) for i in a.a[1]), a.isint))
    if k == "fn":
        return P(fn_atom(a.a[0], tuple(_raw_poly(i, mp) for i in a.a[1]), a.isint))
    if k == "br":
        return P(br_atom(a.a[0], _raw_poly(a.a[1], mp)))
    if k == "sum":
        es, fs = a.a
        # dummies of this sum are at height a.h, all others strictly different
        return P(_mksum_atom(tuple(_raw_poly(e, mp) for e in es),
                             [(_only_atom(subst_raw(b, mp)), e) for b, e in fs], a.h))
    if k == "fun":
        name, h, dims, nb, params, idx = a.a
        return _fun(name, h, tuple(_raw_poly(d, mp) for d in dims), nb,
                    tuple(_raw_poly(q, mp) for q in params),
                    tuple(_raw_poly(i, mp) for i in idx))
    return P(a)


def app_atom_raw(name, idx, isint):
    fam = FAM.get(name)
    s = fam.get("sym") if fam else None
    if s and idx[s[0]].id > idx[s[1]].id:
        l = list(idx)
        l[s[0]], l[s[1]] = l[s[1]], l[s[0]]
        idx = tuple(l)
    return app_atom(name, idx, isint)


def _raw_poly(p, mp):
    if not (free(p) & mp.keys()):
        return p
    out = {}
    for m, c in p.t.items():
        f = {}
        for a, e in m.f:
            b = _only_atom(subst_raw(a, mp))
            f[b] = f.get(b, 0) + e
        m2 = _mkmono(tuple(sorted(f.items(), key=lambda z: z[0].id)))
        out[m2] = out.get(m2, 0) + c
    return _mkpoly({m: c for m, c in out.items() if c})


def _mksum_atom(es, fs, h):
    """Sum atom whose dummies are dum(h, i)."""
    fs = tuple(sorted(fs, key=lambda z: z[0].id))
    fv = set()
    ap = set()
    for a, _ in fs:
        fv |= a.fv
        ap |= a.apps
    for e in es:
        fv |= free(e)
        ap |= apps(e)
    fv -= {dum(h, i) for i in range(len(es))}
    return _mkatom("sum", (es, fs), False, h, frozenset(fv), frozenset(ap))


def mksum(v, ext, p):
    """sum_{v in [0, ext)} p, for an int symbol v; ext >= 0."""
    return close_poly([(v, P(ext))], p)


_cc = {}


def close_poly(bs, p):
    if DEADLINE[0] is not None and clock() > DEADLINE[0]:
        raise OutOfTime()
    out = []
    for m, c in p.t.items():
        out.append(scale(close(bs, dict(m.f)), c))
    return addall(out)


def _linear(p, v):
    """(c, rest) with p = c*v + rest, v not in rest; None if not of that form."""
    c, rest = Q(0), {}
    for m, k in p.t.items():
        if v in m.fv:
            if len(m.f) == 1 and m.f[0] == (v, 1):
                c += k
                continue
            return None
        rest[m] = k
    return c, _mkpoly(rest)


def _plug(f, mp):
    """Product of {atom: exp} after substitution."""
    keys = mp.keys()
    body, keep = ONE, {}
    for b, e in f.items():
        if b.fv & keys:
            body = mul(body, power(subst_atom(b, mp), e))
            if not body.t:
                return ZERO
        else:
            keep[b] = e
    return mul(body, product(keep))


RULES = []     # product rules: rule(vs, f) -> (Poly replacing, remaining bs) or None


def close(bs, f):
    """Bind the int symbols bs (with extents) in the product f; canonical Poly."""
    f = {a: e for a, e in f.items() if e}
    if not bs:
        return product(f)
    key = (tuple(bs), frozenset(f.items()), C.ident())
    r = _cc.get(key)
    if r is None:
        r = _close(bs, f)
        if len(_cc) > 400000:
            _cc.clear()
        _cc[key] = r
    return r


def _close(bs, f):
    vset = {v for v, _ in bs}
    ext = dict(bs)
    vs = [v for v, _ in bs]
    for v, e in bs:
        if e.const() == 0:
            return ZERO
    # 0. sums depending on the bound variables are merged
    for a, e in f.items():
        if a.kind == "sum" and a.fv & vset and e > 0:
            g = dict(f)
            del g[a]
            nb = list(bs)
            for _ in range(e):
                b2, f2 = open_sum(a)
                nb += b2
                for b, x in f2.items():
                    g[b] = g.get(b, 0) + x
            with C.binders(nb):
                body = product(g)
            return close_poly(nb, body)
    # extents that mention bound variables, under the ranges of those
    for i, (v, e) in enumerate(bs):
        if any(a.kind == "br" and a.fv & vset for m in e.t for a, _ in m.f):
            with C.binders(bs[:i]):
                x = addall([_again(m, c) for m, c in e.t.items()])
            if x is not e:
                nb = list(bs[:i]) + [(v, x)] + list(bs[i + 1:])
                with C.binders(nb):
                    body = product(f)
                return close_poly(nb, body)
    # 1. brackets
    with C.binders(bs):
        for a in list(f):
            if a.kind != "br" or not (a.fv & vset):
                continue
            x = bracket(*a.a)
            if x is not P(a):
                g = dict(f)
                del g[a]
                body = mul(product(g), x)
                break
        else:
            body = None
    if body is not None:
        return close_poly(bs, body)
    for a in f:
        if a.kind != "br" or not (a.fv & vset):
            continue
        op, p = a.a
        for v in vs:
            if v not in a.fv:
                continue
            r = _use_bracket(bs, f, a, op, p, v, ext, vset)
            if r is not None:
                return r
    # 2. small constant extents, unused variables
    for v, e in bs:
        c = e.const()
        if c is not None and -3 <= c <= 3:
            out = []
            for k in (range(int(c)) if c >= 0 else range(int(c), 0)):
                mp = {v: num(k)}
                nb = [(w, subst(x, mp)) for w, x in bs if w is not v]
                with C.binders(nb):
                    body = _plug(f, mp)
                out.append(close_poly(nb, body))
            return addall(out) if c >= 0 else neg(addall(out))
    used = set()
    for a in f:
        used |= a.fv
    for v, e in bs:
        if v not in used and not any(v in free(x) for w, x in bs if w is not v):
            nb = [(w, x) for w, x in bs if w is not v]
            with C.binders(nb):
                body = mul(e, product(f))
            return close_poly(nb, body)
    # 3. factors free of every bound variable move outside
    outer = {a: e for a, e in f.items() if not (a.fv & vset)}
    if outer:
        inner = {a: e for a, e in f.items() if a.fv & vset}
        return mul(product(outer), close(bs, inner))
    # 4. product rules (lemmas)
    for rule in RULES:
        r = rule(bs, f)
        if r is not None:
            nb, body = r
            return close_poly(nb, body)
    # 5. prefix form: every occurrence of v is v+s or s-v
    r = _shift(bs, f)
    if r is not None:
        return r
    # 6. trailing constant of the extent
    for v, e in bs:
        k = e.t.get(ONE_M)
        if k is not None and e.const() is None and k.denominator == 1 and abs(k) <= 6:
            base = e - k
            if True:
                k = int(k)
                nb = [(w, (base if w is v else x)) for w, x in bs]
                tot = [close(nb, f)]
                for j in (range(0, k) if k > 0 else range(k, 0)):
                    mp = {v: base + j}
                    rest = [(w, subst(x, mp)) for w, x in bs if w is not v]
                    with C.binders(rest):
                        body = _plug(f, mp)
                    one = close_poly(rest, body)
                    tot.append(one if k > 0 else neg(one))
                return addall(tot)
    # 7. connected components
    comps = _components(bs, f)
    out = ONE
    for b, g in comps:
        out = mul(out, P(_close_component(b, g)))
    return out


def _again(m, c):
    """The monomial with its brackets decided again."""
    r = num(c)
    for a, e in m.f:
        r = mul(r, power(bracket(*a.a) if a.kind == "br" else P(a), e))
    return r


def _use_bracket(bs, f, a, op, p, v, ext, vset):
    lc = _linear(p, v)
    if lc is None or abs(lc[0]) != 1:
        return None
    c, rest = lc
    others = [(w, x) for w, x in bs if w is not v]
    if any(v in free(x) for _, x in others):
        return None
    with C.binders(others):
        if C.decide("le", neg(ext[v])) is not True:
            return None
    g = dict(f)
    del g[a]
    if op == "eq":
        val = scale(rest, -1 / c)
        with C.binders(others):
            lo = bracket("le", neg(val))
            hi = bracket("lt", val - ext[v])
            cond = mul(lo, hi)
            if not cond.t:
                return ZERO
            # inside the brackets the value is in range
            with C.assume([("le", neg(val)), ("lt", val - ext[v])]):
                body = _plug(g, {v: val})
            body = mul(body, cond)
        return close_poly(others, body)
    # c*v + rest <= 0
    if c == 1:
        bnd, up = ONE - rest, True        # v < bnd
    else:
        bnd, up = rest, False             # v >= bnd
    with C.binders(others):
        if C.decide("le", neg(bnd)) is not True:
            if C.decide("le", bnd) is True:      # bnd <= 0
                return ZERO if up else close(bs, g)
            return None
        if C.decide("le", bnd - ext[v]) is not True:
            if C.decide("le", ext[v] - bnd) is True:
                return close(bs, g) if up else ZERO
            return None
    low = close(_order(others + [(v, bnd)]), g)
    return low if up else close(bs, g) - low


def _order(bs):
    """Order bound variables so that extents mention only earlier ones."""
    out, rest = [], list(bs)
    while rest:
        for i, (v, e) in enumerate(rest):
            if not any(w in free(e) for w, _ in rest if w is not v):
                out.append(rest.pop(i))
                break
        else:
            raise Unsupported("cyclic extents")
    return out


def _occ(x, v, acc):
    """Collect the offsets at which v occurs inside integer argument positions of the
    Poly x: acc gets ('+', rest) or ('-', rest) or None for anything else."""
    if v not in free(x):
        return
    lc = _linear(x, v)
    if lc is not None and abs(lc[0]) == 1:
        acc.add((int(lc[0]), lc[1]))
        return
    for m in x.t:
        for a, e in m.f:
            if v in a.fv:
                _occ_atom(a, v, acc)


def _occ_atom(a, v, acc):
    k = a.kind
    if a is v:
        acc.add((1, ZERO))
    elif k in ("app", "fn"):
        for i in a.a[1]:
            _occ(i, v, acc)
    elif k == "br":
        pass
    elif k == "fun":
        for q in a.a[2] + a.a[4] + a.a[5]:
            _occ(q, v, acc)
    elif k == "sum":
        for b, _ in a.a[1]:
            if v in b.fv:
                _occ_atom(b, v, acc)
        for e in a.a[0]:
            _occ(e, v, acc)


def _shift(bs, f):
    """Rewrite the sum over v of g(v + s) as a difference of prefix sums of g."""
    vset = {v for v, _ in bs}
    for v, e in bs:
        others = [(w, x) for w, x in bs if w is not v]
        if any(v in free(x) for _, x in others):
            continue
        acc = set()
        for a in f:
            if v in a.fv:
                _occ_atom(a, v, acc)
        if not acc:
            continue
        # candidate: a common sign and the smallest shift (constants relative to it)
        sg = {s for s, _ in acc}
        if len(sg) != 1:
            continue
        s = sg.pop()
        offs = [o for _, o in acc]
        base = None
        for o in offs:
            if all((o2 - o).const() is not None and (o2 - o).const() >= 0 for o2 in offs):
                base = o
                break
        if base is None:
            continue
        if any(w in free(base) for w in vset):
            continue
        if s == 1 and base is ZERO:
            continue
        if s == 1:
            lo = base                        # v + base runs over [base, base+e)
            mp = {v: P(v) - base}
        else:
            lo = base - e + 1                # base - v runs over [base-e+1, base]
            mp = {v: base - P(v)}
        with C.binders(others):
            body = _plug(f, mp)
        hi = lo + e
        r = close_poly(_order(others + [(v, hi)]), body)
        if lo.const() == 0:
            return r
        return r - close_poly(_order(others + [(v, lo)]), body)
    return None


def _components(bs, f):
    par = {v: v for v, _ in bs}

    def find(x):
        while par[x] is not x:
            x = par[x]
        return x
    for v, e in bs:
        for w in free(e):
            if w in par:
                par[find(w)] = find(v)
    for a in f:
        l = [w for w in a.fv if w in par]
        for w in l[1:]:
            par[find(w)] = find(l[0])
    comps = {}
    for v, e in bs:
        comps.setdefault(find(v), ([], {}))[0].append((v, e))
    for a, e in f.items():
        l = [w for w in a.fv if w in par]
        comps[find(l[0])][1][a] = e
    return list(comps.values())


_M0 = _mkatom("dum", ("mark", 0), True, 0, None)
_M1 = _mkatom("dum", ("mark", 1), True, 0, None)


def _close_component(bs, f):
    """The canonical sum atom of one connected component."""
    n = len(bs)
    h = 1 + max([a.h for a in f] + [height(e) for _, e in bs])
    vs = [v for v, _ in bs]
    if n == 1:
        mp = {vs[0]: P(dum(h, 0))}
        return _mksum_atom((bs[0][1],),
                           [(_only_atom(_rename(a, mp)), e) for a, e in f.items()], h)
    ext = dict(bs)
    sig = {}
    for v in vs:
        mp = {w: P(_M1) for w in vs}
        mp[v] = P(_M0)
        sig[v] = (_raw_poly(ext[v], mp).id,
                  tuple(sorted((_only_atom(_rename(a, mp)).id, e)
                               for a, e in f.items() if v in a.fv)))
    groups = {}
    for v in vs:
        groups.setdefault(sig[v], []).append(v)
    gl = [groups[k] for k in sorted(groups)]
    tot = 1
    for g in gl:
        tot *= math.factorial(len(g))
    if tot > 5040:
        raise Unsupported("too many bound variables (%d)" % n)
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in gl]):
        order = [v for g in perm for v in g]
        mp = {v: P(dum(h, i)) for i, v in enumerate(order)}
        es = tuple(_raw_poly(ext[v], mp) for v in order)
        fs = tuple(sorted(((_only_atom(_rename(a, mp)), e) for a, e in f.items()),
                          key=lambda z: z[0].id))
        key = (tuple(e.id for e in es), tuple((a.id, e) for a, e in fs))
        if best is None or key < best[0]:
            best = (key, es, fs)
    return _mksum_atom(best[1], best[2], h)


# ------------------------------------------------------------------- printing
def show(p, top=True):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda z: z[0].id)[:40]:
        s = "*".join(("%s" % show_atom(a)) + ("" if e == 1 else "^%d" % e) for a, e in m.f)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s*%s" % (c, s))
    r = " + ".join(out).replace("+ -", "- ")
    if len(p.t) > 40:
        r += " + ... (%d terms)" % len(p.t)
    return r


def show_atom(a):
    k = a.kind
    if k == "sym":
        return a.a[0]
    if k == "dum":
        return "d%s_%s" % a.a
    if k in ("app", "fn"):
        return "%s(%s)" % (a.a[0], ", ".join(show(i) for i in a.a[1]))
    if k == "br":
        return "[%s %s 0]" % (show(a.a[1]), {"le": "<=", "eq": "=="}[a.a[0]])
    if k == "sum":
        return "Sum{%s}(%s)" % (
            ", ".join("d%s_%d<%s" % (a.h, i, show(e)) for i, e in enumerate(a.a[0])),
            "*".join(show_atom(b) + ("" if e == 1 else "^%d" % e) for b, e in a.a[1]))
    if k == "fun":
        name, h, dims, nb, params, idx = a.a
        return "%s{%s | d%s_*<%s}[%s]" % (name, "; ".join(show(q) for q in params), h,
                                         ",".join(show(d) for d in dims),
                                         ", ".join(show(i) for i in idx))
    return "?"


def extents(a):
    """The extents of a sum atom."""
    return a.a[0]
