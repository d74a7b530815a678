"""Matrix functionals (Cholesky factor, inverse, log-determinant) and their laws.

Trusted laws, for symmetric positive-definite A with lower factor L = chol(A):
  sum_k L[i,k] L[j,k] = A[i,j];  L[i,k] = 0 for k > i;  L[i,i] > 0;
  W = L^-1:  sum_k W[k,i] W[k,j] = inv(A)[i,j];  sum_k L[i,k] W[k,j] = [i=j] (both orders);
  sum_k inv(A)[i,k] A[k,j] = [i=j];  inv(A) symmetric;
  sum_i log L[i,i] = 1/2 logdet(A);
  scaling and diagonal matrices: chol(cA) = sqrt(c) chol(A), chol(diag s) = diag sqrt(s), ...
"""
from . import ctx as C
from . import terms as T
from .terms import P, ONE, ZERO, mul, neg
from .val import Arr, Cond, Num, from_fn, eq_dim, unsupported, as_arr, PATHS


class LinAlgError(Exception):
    pass


PDFAM = set()        # families S(.., i, j) that are symmetric positive definite in i, j
T.FUN_SYM.add("inv")


def generic(a, n=2):
    """(syms, body) of the last n indices of a with fresh index symbols."""
    ss = [T.fresh("m") for _ in range(n)]
    with C.binders(list(zip(ss, a.shape))):
        return ss, a.get(tuple(P(s) for s in ss))


def _factor(body, ss):
    """body = c * rest with c free of the index symbols."""
    if len(body.t) != 1:
        # common scalar factor over all monomials
        ms = list(body.t.items())
        common = None
        for m, _ in ms:
            g = {a: e for a, e in m.f if not (a.fv & set(ss)) and a.kind != "br"}
            if common is None:
                common = g
            else:
                common = {a: min(e, g[a]) if e > 0 else max(e, g[a])
                          for a, e in common.items() if a in g and (g[a] > 0) == (e > 0)}
        if not common:
            return ONE, body
        c = T.product(common)
        inv = T.product({a: -e for a, e in common.items()})
        return c, mul(body, inv)
    (m, k), = body.t.items()
    c = {a: e for a, e in m.f if not (a.fv & set(ss)) and a.kind != "br"}
    r = {a: e for a, e in m.f if a not in c}
    return T.scale(T.product(c), k), T.product(r)


def _diag(body, ss):
    """The diagonal entries if body is [s0 == s1] * d, else None."""
    b = T.bracket("eq", P(ss[0]) - P(ss[1]))
    if len(b.t) != 1:
        return None
    (bm, _), = b.t.items()
    if len(bm.f) != 1:
        return None
    a = bm.f[0][0]
    for m in body.t:
        if a not in dict(m.f):
            return None
    if not body.t:
        return None
    with C.assume([("eq", P(ss[0]) - P(ss[1]))]):
        return T.subst(T.cases(body, a)[0], {ss[1]: P(ss[0])})


def _norm(kind):
    def rule(dims, ss, params, idx):
        body = params[0]
        with C.binders(list(zip(ss, dims))):
            d = _diag(body, ss)
            pos = d is not None and T.positive(d)
        if d is not None and (pos or kind == "inv"):
            if kind == "logdet":
                v = T.fresh("v")
                with C.binders([(v, dims[0])]):
                    x = T.mkfn("log", (T.subst(d, {ss[0]: P(v)}),))
                return T.mksum(v, dims[0], x)
            i, j = idx
            with C.assume([("le", neg(i)), ("lt", i - dims[0])]):
                di = T.subst(d, {ss[0]: i})
                x = {"chol": lambda: T.mkfn("sqrt", (di,)), "inv": lambda: T.recip(di),
                     "cinv": lambda: T.recip(T.mkfn("sqrt", (di,)))}[kind]()
            return mul(T.bracket("eq", i - j), x)
        c, rest = _factor(body, ss)
        if rest is not body and T.positive(c):
            r = T.mkfun(kind, dims, ss, (rest,), idx)
            if kind == "logdet":
                return r + mul(dims[0], T.mkfn("log", (c,)))
            return mul(r, {"chol": lambda: T.mkfn("sqrt", (c,)), "inv": lambda: T.recip(c),
                           "cinv": lambda: T.recip(T.mkfn("sqrt", (c,)))}[kind]())
        if kind in ("chol", "cinv"):
            i, j = idx
            if C.decide("lt", i - j) is True:
                return ZERO
        if kind == "inv":
            # inverse of an inverse
            s = T._single(rest)
            if rest is body and s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
                a = s[1][0][0]
                if a.kind == "fun" and a.a[0] == "inv" and set(a.a[5]) == {P(ss[0]), P(ss[1])}:
                    _, d2, s2, p2, _ = T.fun_open(a)
                    return T.subst(p2[0], {s2[0]: idx[0], s2[1]: idx[1]})
        return None
    return rule


for _k in ("chol", "inv", "cinv", "logdet"):
    T.MKFUN[_k] = _norm(_k)


def _diag_pos(a):
    """Diagonal entries of Cholesky factors are positive."""
    i = a.a[5]
    return "pos" if len(i) == 2 and i[0] is i[1] else None


C.POS["chol"] = _diag_pos
C.POS["cinv"] = _diag_pos


def pd_body(body, ss):
    """True if the generic entry is recognisably positive definite."""
    d = _diag(body, ss)
    if d is not None:
        if T.positive(d):
            return True
        return None
    c, rest = _factor(body, ss)
    s = T._single(rest)
    if s and len(s[1]) == 1 and s[1][0][1] == 1:
        a = s[1][0][0]
        if (a.kind == "app" and a.a[0] in PDFAM and {a.a[1][-1], a.a[1][-2]} == {P(ss[0]), P(ss[1])}) \
                or (a.kind == "fun" and a.a[0] == "inv" and set(a.a[5]) == {P(ss[0]), P(ss[1])}):
            k = T.scale(c, s[0])
            if T.positive(k):
                return True
            if C.decide("le", k) is True:
                return False
        return None
    # a sum of positive-definite parts
    if len(body.t) > 1:
        rs = [pd_body(T._mkpoly({m: k}), ss) for m, k in body.t.items()]
        if all(r is True for r in rs):
            return True
    return None


def pd_cond(a):
    """The condition that the matrix a is positive definite."""
    if len(a.shape) != 2:
        raise LinAlgError("a matrix is needed")
    d = eq_dim(a.shape[0], a.shape[1])
    if d is None:
        unsupported("cannot tell whether a matrix is square")
    if not d:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    ss, body = generic(a)
    with C.binders(list(zip(ss, a.shape))):
        r = pd_body(body, ss)
        dg = _diag(body, ss) if r is None else None
    if r is not None:
        return Cond(P(int(r)))
    if dg is not None and not (T.free(dg) & set(ss)) and C.decide("le", 1 - a.shape[0]) is True:
        return Cond(T.bracket("lt", neg(dg)), ("lt", neg(dg)))
    b = T.mkfun("pd", a.shape, ss, (body,), ())
    return Cond(b, None)


def _pd_norm(dims, ss, params, idx):
    """pd is invariant under positive scaling; a definite answer is not looked for here."""
    c, rest = _factor(params[0], ss)
    if rest is not params[0] and T.positive(c):
        return T.mkfun("pd", dims, ss, (rest,), idx)
    return None


T.MKFUN["pd"] = _pd_norm
C.POS["pd"] = "nonneg"


def matrix_fun(kind, a, err=LinAlgError):
    """Arr of the functional kind of the matrix a."""
    ss, body = generic(a)
    dims = a.shape
    if kind == "logdet":
        return Num(T.mkfun(kind, dims, ss, (body,), ()))
    return from_fn(dims, lambda idx: T.mkfun(kind, dims, ss, (body,), idx))


def cholesky(x, lower=True, err=LinAlgError):
    x = as_arr(x)
    if not bool(pd_cond(x)):
        raise err("Matrix is not positive definite")
    r = matrix_fun("chol", x)
    return r if lower else r.T


def is_chol(body, ss):
    """(dims, syms, params) of A if the generic entry is exactly chol(A)[s0, s1] times a
    scalar; with the scalar."""
    c, rest = _factor(body, ss)
    s = T._single(rest)
    if s and len(s[1]) == 1 and s[1][0][1] == 1:
        a = s[1][0][0]
        if a.kind == "fun" and a.a[0] == "chol":
            if a.a[5] == (P(ss[0]), P(ss[1])):
                return T.scale(c, s[0]), a, False
            if a.a[5] == (P(ss[1]), P(ss[0])):
                return T.scale(c, s[0]), a, True
    return None


def inverse(a):
    """Inverse as an array; the matrix must be known to be invertible."""
    if len(a.shape) != 2 or eq_dim(*a.shape) is not True:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    ss, body = generic(a)
    dims = a.shape
    r = is_chol(body, ss)
    if r is not None:
        c, at, tr = r
        _, d2, s2, p2, _ = T.fun_open(at)
        k = T.recip(c)

        def get(idx):
            i = idx[::-1] if tr else idx
            return mul(k, T.mkfun("cinv", d2, s2, p2, i))
        return from_fn(dims, get)
    with C.binders(list(zip(ss, dims))):
        ok = pd_body(body, ss)
    if ok is not True:
        c, rest = _factor(body, ss)
        d = None
        with C.binders(list(zip(ss, dims))):
            d = _diag(body, ss)
        if not (d is not None and C.sign(d) in ("pos", "neg")):
            if not bool(pd_cond(a)):
                unsupported("inverse of a matrix not known to be positive definite")
    return from_fn(dims, lambda idx: T.mkfun("inv", dims, ss, (body,), idx))


def solve(a, b):
    from .val import dot
    return dot(inverse(as_arr(a)), as_arr(b))


# -------------------------------------------------------------------- laws
def _same_mat(a, b):
    return a.a[1:5] == b.a[1:5]


def _entry(a, i, j):
    """Entry (i, j) of the matrix under the functional atom a."""
    _, d2, s2, p2, _ = T.fun_open(a)
    with C.assume([("le", neg(i)), ("lt", i - d2[0]), ("le", neg(j)), ("lt", j - d2[1])]):
        return T.subst(p2[0], {s2[0]: i, s2[1]: j})


def laws(bs, f):
    ext = dict(bs)
    for v, e in bs:
        pv = P(v)
        occ = [(a, x) for a, x in f.items() if v in a.fv]
        if any(v in T.free(x) for w, x in bs if w is not v):
            continue
        if len(occ) > 2:
            # inv(A)[i,v] A[v,j] may appear among other factors only if v is only there
            continue
        if len(occ) == 1 and occ[0][1] == 2:
            occ = [(occ[0][0], 1), (occ[0][0], 1)]
        if len(occ) == 1 and occ[0][1] == 1:
            a = occ[0][0]
            if a.kind == "fn" and a.a[0] == "log":
                s = T._single(a.a[1][0])
                if s and len(s[1]) == 1 and s[1][0][1] == 1 and s[0] == 1:
                    c = s[1][0][0]
                    if c.kind == "fun" and c.a[0] == "chol" and c.a[5] == (pv, pv) \
                            and C.decide("eq", e - c.a[2][0]) is True and not _in_mat(c, v):
                        g = dict(f)
                        del g[a]
                        nb = [(w, x) for w, x in bs if w is not v]
                        _, d2, s2, p2, _ = T.fun_open(c)
                        r = T.scale(T.mkfun("logdet", d2, s2, p2, ()), T.Q(1, 2))
                        return nb, mul(T.product(g), r)
            continue
        if len(occ) != 2 or occ[0][1] != 1 or occ[1][1] != 1:
            continue
        r = _pair(occ[0][0], occ[1][0], v, pv, e)
        if r is None:
            r = _pair(occ[1][0], occ[0][0], v, pv, e)
        if r is not None:
            g = dict(f)
            for a, _ in occ:
                g.pop(a, None)
            nb = [(w, x) for w, x in bs if w is not v]
            with C.binders(nb):
                body = mul(T.product(g), r)
            return nb, body
    return None


def _in_mat(a, v):
    return any(v in T.free(q) for q in a.a[2] + a.a[4])


def _pair(a, b, v, pv, e):
    if a.kind != "fun" or a.a[0] not in ("chol", "cinv", "inv"):
        return None
    if _in_mat(a, v) or C.decide("eq", e - a.a[2][0]) is not True:
        return None
    n = a.a[0]
    i, j = a.a[5]
    if b.kind == "fun" and b.a[0] in ("chol", "cinv", "inv") and _same_mat(a, b):
        k, l = b.a[5]
        if n == "chol" and b.a[0] == "chol" and j is pv and l is pv \
                and v not in T.free(i) | T.free(k):
            return _entry(a, i, k)
        if n == "cinv" and b.a[0] == "cinv" and i is pv and k is pv \
                and v not in T.free(j) | T.free(l):
            _, d2, s2, p2, _ = T.fun_open(a)
            return T.mkfun("inv", d2, s2, p2, (j, l))
        if {n, b.a[0]} == {"chol", "cinv"} and j is pv and k is pv \
                and v not in T.free(i) | T.free(l):
            return T.bracket("eq", i - l)
        if n == "inv" and b.a[0] == "chol":
            # inv(A) L = W^T
            o = j if i is pv else i
            if (i is pv or j is pv) and k is pv and v not in T.free(o) | T.free(l):
                _, d2, s2, p2, _ = T.fun_open(a)
                return T.mkfun("cinv", d2, s2, p2, (l, o))
        return None
    if n == "inv":
        if i is pv and v not in T.free(j):
            o = j
        elif j is pv and v not in T.free(i):
            o = i
        else:
            return None
        # A is a single atom (times a scalar): match b against it
        _, d2, s2, p2, _ = T.fun_open(a)
        s = T._single(p2[0])
        if s is None or s[0] != 1 or len(s[1]) != 1 or s[1][0][1] != 1:
            return None
        pat = s[1][0][0]
        q = _match_sym(pat, b, s2, v)
        if q is not None:
            return T.bracket("eq", o - q)
    return None


def _match_sym(pat, b, ss, v):
    """b = pat with one of the two index symbols replaced by v: the other index (A is
    symmetric, so either order will do)."""
    if pat.kind != b.kind or pat.kind not in ("app", "fun"):
        return None
    if pat.kind == "app":
        if pat.a[0] != b.a[0] or len(pat.a[1]) != len(b.a[1]):
            return None
        pi, bi = pat.a[1], b.a[1]
    else:
        if pat.a[:5] != b.a[:5]:
            return None
        pi, bi = pat.a[5], b.a[5]
    m = {}
    for x, y in zip(pi, bi):
        if x is P(ss[0]) or x is P(ss[1]):
            m[x] = y
        elif x is not y:
            return None
    if len(m) != 2:
        return None
    y0, y1 = m[P(ss[0])], m[P(ss[1])]
    if y0 is P(v) and v not in T.free(y1):
        return y1
    if y1 is P(v) and v not in T.free(y0):
        return y0
    return None


T.RULES.append(laws)
