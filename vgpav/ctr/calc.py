"""Formal calculus on terms used in specifications: derivatives, Gaussian expectations."""
from ..eng import terms as T
from ..eng.terms import P, ONE, ZERO, mul, Unsupported


def diff(p, a):
    """Formal partial derivative of p with respect to the atom a (sym or app)."""
    out = []
    for m, c in p.t.items():
        f = dict(m.f)
        for b, e in m.f:
            d = diff_atom(b, a)
            if d is None or not d.t:
                continue
            g = dict(f)
            if e == 1:
                del g[b]
            else:
                g[b] = e - 1
            out.append(T.scale(mul(T.product(g), d), c * e))
    return T.addall(out)


def diff_atom(b, a):
    if b is a:
        return ONE
    if b.kind == "fn":
        x = b.a[1][0]
        d = diff(x, a)
        if not d.t:
            return None
        if b.a[0] == "inv":
            return T.neg(mul(mul(P(b), P(b)), d))
        if b.a[0] == "log":
            return mul(T.recip(x), d)
        if b.a[0] == "sqrt":
            return T.scale(mul(T.recip(P(b)), d), T.Q(1, 2))
        raise Unsupported("derivative of %s" % b.a[0])
    if b.kind in ("sum", "fun", "br") and a in set(T.atoms_in(P(b))):
        raise Unsupported("derivative of %s" % b.kind)
    return None


def atom(p):
    """The atom of a Poly that is just an atom."""
    (m, c), = p.t.items()
    assert c == 1 and len(m.f) == 1 and m.f[0][1] == 1
    return m.f[0][0]


def gmoment(n, m, v):
    """E[x^n], x ~ N(m, v), by Stein's identity E[x^n] = m E[x^(n-1)] + (n-1) v E[x^(n-2)]."""
    e = [ONE, m]
    for k in range(2, n + 1):
        e.append(mul(m, e[k - 1]) + T.scale(mul(v, e[k - 2]), k - 1))
    return e[n]


def gexpect(p, x, m, v):
    """E[p(x)] for a polynomial p in the atom x, x ~ N(m, v)."""
    out = []
    for mo, c in p.t.items():
        f = dict(mo.f)
        n = f.pop(x, 0)
        out.append(T.scale(mul(T.product(f), gmoment(n, m, v)), c))
    return T.addall(out)


def mgexpect(p, xs, m, S):
    """E[p(x)] for a polynomial p in the atoms xs (list), x ~ N(m, S): Stein's identity
    E[x_i g] = m_i E[g] + sum_j S_ij E[dg/dx_j].  m(i), S(i, j) Polys."""
    memo = {}
    pos = {a: i for i, a in enumerate(xs)}

    def ex(mon):
        """mon: tuple of (index, power), nonempty powers."""
        if not mon:
            return ONE
        r = memo.get(mon)
        if r is not None:
            return r
        d = dict(mon)
        i = mon[0][0]
        d[i] -= 1
        g = key(d)
        r = mul(m(i), ex(g))
        for j, e in g:
            h = dict(g)
            h[j] -= 1
            r = r + T.scale(mul(S(i, j), ex(key(h))), e)
        memo[mon] = r
        return r

    def key(d):
        return tuple(sorted((i, e) for i, e in d.items() if e))
    out = []
    for mo, c in p.t.items():
        f, d = {}, {}
        for a, e in mo.f:
            if a in pos:
                d[pos[a]] = e
            else:
                f[a] = e
        out.append(T.scale(mul(T.product(f), ex(key(d))), c))
    return T.addall(out)
