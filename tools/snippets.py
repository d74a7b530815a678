"""Snippets compared by tools/fidelity.py (never used by a check)."""
import numpy as np


# --- indexing and slices
def s_neg1(v): return v[-1]
def s_neg2(v): return v[-2]
def s_at_k(v, k): return v[k]
def s_rev(v): return v[::-1]
def s_step2(v): return v[::2]
def s_from1(v): return v[1:]
def s_to_m1(v): return v[:-1]
def s_mid(v): return v[1:-1]
def s_to_k(v, k): return v[:k]
def s_from_k(v, k): return v[k:]
def s_last2(v): return v[-2:]
def s_col(a): return a[:, 0]
def s_lastcol(a): return a[:, -1]
def s_row(a, k): return a[k]
def s_row2(a, k): return a[k, :]
def s_sub(a): return a[1:, :]
def s_ell(q, k): return q[..., 0]
def s_none(v): return v[:, None] * 2
def s_none2(v, w): return v[:, None] + w[None, :]
def s_fancy(v): return v[[0, 1, 0]]
def s_mask(v): return v[v > 0].sum()
def s_oob(v, n): return v[n]
def s_slice_over(v, n): return v[:n + 3]
def s_step_from(v): return v[1::2]
def s_negstep(v): return v[-1:0:-1]
def s_wherepos(v): return np.where(v > 0, v, -v)


def s_aug(v):
    x = v.copy()
    x[1:] += x[:-1]
    return x


def s_aug2(v):
    x = np.zeros(len(v))
    x[:] = v
    x[0] = 5
    y = x
    y[1] = 7
    return x


def s_view(a):
    b = a.copy()
    r = b[0]
    r += 1.0
    return b


def s_viewT(c):
    b = c.copy()
    t = b.T
    t[0, -1] = 9.0
    return b


def s_ravelcopy(a):
    b = a.copy()
    r = b.flatten()
    r[0] = 100.0
    return b


def s_ravelview(a):
    b = a.copy()
    r = b.reshape(-1)
    r[0] = 100.0
    return b


def s_diagview(c):
    b = c.copy()
    b[np.diag_indices(b.shape[0])] = 2.5
    return b


def s_filldiag(c):
    b = c.copy()
    np.fill_diagonal(b, 1.5)
    return b


# --- integers
def s_floordiv(i, j): return i // j
def s_floordivneg(i, j): return i // -j
def s_mod(i, j): return i % j
def s_modneg(i, j): return i % -j
def s_truediv(i, j): return i / j
def s_int(x): return int(x)
def s_intneg(y): return int(-y)
def s_round(x): return round(x)
def s_roundhalf(i): return round(i / 2)
def s_floor(x): return np.floor(x)
def s_ceil(x): return np.ceil(x)
def s_intpow(i): return i ** 3
def s_negpow(j): return j ** -1
def s_intarr(z): return z / 2
def s_intarr2(z): return z // 2
def s_intarr3(z): return z % 3
def s_intpow2(z): return z ** 2
def s_trunc(z, x):
    o = z.copy()
    o[0] = x
    return o


def s_intaug(z, x):
    o = z.copy()
    o += 1
    return o


def s_zl(z, v):
    o = np.zeros_like(z)
    o[:] = v
    return o


def s_zld(z, v):
    o = np.zeros_like(z, dtype=float)
    o[:] = v
    return o


def s_fulli(n, x):
    o = np.full(n, 1)
    o[0] = x
    return o


def s_arri(x):
    o = np.array([1, 2, 3])
    o[1] = x
    return o


def s_sqrtint(z): return np.sqrt(np.abs(z))
def s_astype(v): return v.astype(int)
def s_bool(i): return 1.0 if i else 2.0
def s_boolx(x): return bool(x) + 1
def s_divmod(i, j): return divmod(i, j)[0] * 10 + divmod(i, j)[1]
def s_minmax(i, j): return min(i, j) - max(i, j, 3)
def s_abs(i): return abs(i)
def s_sign(v): return np.sign(v)
def s_pow0(x): return x ** 0
def s_pow2(x): return x ** 2.0
def s_half(y): return y ** 0.5
def s_cmp(i, j, x): return (i < j) + 2 * (i == j) + 4 * (0 < x <= 2)
def s_andor(i, j): return (i or j) + (i and j)
def s_not(i): return not i
def s_mulmix(i, x): return i * x - x / 3


# --- making arrays
def s_zeros(n, d): return np.zeros((n, d))
def s_ones(n): return np.ones(n) * 3
def s_eye(d): return np.eye(d)
def s_eyek(n): return np.eye(n, k=1)
def s_full(n, x): return np.full(n, x)
def s_full2(n, d, x): return np.full((n, d), x)
def s_arange(n): return np.arange(n)
def s_arange2(n): return np.arange(1, n + 1)
def s_arange3(n): return np.arange(0, 2 * n, 2)
def s_arange4(n): return np.arange(0, 2 * n - 1, 2)
def s_arangef(n): return np.arange(n) * 0.5
def s_arangeneg(n): return np.arange(n, 0, -1)
def s_linspace(m): return np.linspace(0.0, 2.0, m)
def s_linspace2(m): return np.linspace(0.0, 2.0, m, endpoint=False)
def s_diagm(v): return np.diag(v)
def s_diage(c): return np.diag(c)
def s_diagk(c): return np.diag(np.diag(c))
def s_tril(c): return np.tril(c)
def s_triu1(c): return np.triu(c, 1)
def s_like(a): return np.ones_like(a)
def s_atleast(v): return np.atleast_2d(v)
def s_asfort(a): return np.asfortranarray(a)
def s_tile(v): return np.tile(v, 2)
def s_repeat(v): return np.repeat(v, 2)
def s_outer(v, u): return np.outer(v, u)
def s_kron(v): return np.kron(v, np.ones(2))
def s_stack(v, w): return np.vstack((v, w))
def s_hstack(v, w): return np.hstack((v, w))
def s_conc(v, u): return np.concatenate((v, u))
def s_conc0(a, b): return np.concatenate((a, b))
def s_conc1(a, b): return np.concatenate((a, b), axis=1)
def s_colstack(v, w): return np.column_stack((v, w))
def s_stack1(v, w): return np.stack((v, w), axis=1)
def s_append(v, x): return np.append(v, x)
def s_insert(v, x): return np.insert(v, 0, x)
def s_delete(v): return np.delete(v, 0)
def s_roll(v): return np.roll(v, 1)
def s_flip(v): return np.flip(v)
def s_emptyfill(n, v):
    o = np.empty(n)
    o[:] = v
    return o


def s_emptylike(a):
    o = np.empty_like(a)
    o[...] = 2.0
    return o


# --- shapes
def s_resh(a, n, d): return a.reshape(n * d)
def s_resh2(a, n, d): return a.reshape(d, n)
def s_reshF(a, n, d): return a.reshape((d, n), order="F")
def s_ravelF(a): return a.ravel(order="F")
def s_ravel(a): return a.ravel()
def s_ravel3(q): return q.ravel()
def s_roundtrip(v, a, n, d): return np.concatenate((v, a.ravel()))[n:].reshape(n, d)
def s_T(a): return a.T
def s_Tv(v): return v.T
def s_T3(q): return q.transpose(0, 2, 1)
def s_swap(q): return q.swapaxes(1, 2)
def s_move(q): return np.moveaxis(q, 0, -1)
def s_size(a): return a.size
def s_ndim(a): return a.ndim + len(a)
def s_squeeze(a): return a[:1].squeeze(0)
def s_expand(v): return np.expand_dims(v, 1)
def s_bcast(v, n, d): return np.broadcast_to(v[:, None], (n, d))
def s_shape(a): return a.shape[0] * 10 + a.shape[1]
def s_newax(a): return a[:, np.newaxis, :] * 2


# --- arithmetic
def s_addrow(a, c): return a + c[0]
def s_mul(a, b): return a * b / 2
def s_scal(a, x): return x - a
def s_dot(a, c): return a.dot(c)
def s_dotv(v, w): return np.dot(v, w)
def s_dotmv(a, c): return np.dot(c, a[0])
def s_dotvm(a, c): return np.dot(a[0], c)
def s_mat(a, e): return a @ e
def s_mat3(q, c): return q @ c
def s_mat3b(q, c): return c @ q
def s_mat3c(q): return q @ q
def s_dot3(q, c): return q.dot(c)
def s_matv3(q, a): return np.einsum("nij,nj->ni", q, a)
def s_ein(a, b): return np.einsum("nd,nd->n", a, b)
def s_ein2(a): return np.einsum("ni,nj->nij", a, a)
def s_eintr(q): return np.einsum("nii->n", q)
def s_einimp(c, e): return np.einsum("ij,jk", c, e)
def s_einimp2(c, e): return np.einsum("ba,bc", c, e)
def s_tensordot(a, e): return np.tensordot(a, e, axes=1)
def s_inner(a, b): return np.inner(a, b)
def s_vdot(a, b): return np.vdot(a, b)
def s_trace(c): return np.trace(c)
def s_tr3(q): return np.trace(q, axis1=1, axis2=2)
def s_sum(a): return a.sum()
def s_sum0(a): return a.sum(axis=0)
def s_sum1(a): return np.sum(a, axis=1)
def s_sumk(a): return a.sum(axis=1, keepdims=True)
def s_summ1(q): return q.sum(axis=-1)
def s_sum12(q): return q.sum(axis=(1, 2))
def s_mean(a): return a.mean(axis=0)
def s_meanall(a): return np.mean(a)
def s_var(v): return np.var(v)
def s_std(v): return np.std(v)
def s_var1(v): return v.var(ddof=1)
def s_prod(v): return np.prod(v[:2])
def s_prodall(v): return np.prod(v)
def s_cumsum(v): return np.cumsum(v)
def s_cumsum1(a): return np.cumsum(a, axis=0)
def s_diff(v): return np.diff(v)
def s_diff0(a): return np.diff(a, axis=0)
def s_max(v): return v.max()
def s_min(v): return np.min(v)
def s_argmin(v): return v[np.argmin(v)]
def s_maxax(a): return a.max(axis=0)
def s_maximum(v, w): return np.maximum(v, w)
def s_minimum(v, x): return np.minimum(v, x)
def s_clip(v): return np.clip(v, -1.0, 1.0)
def s_norm(v): return np.linalg.norm(v)
def s_normm(a): return np.linalg.norm(a)
def s_norminf(v): return np.linalg.norm(v, np.inf)
def s_norm1(a): return np.linalg.norm(a, axis=1)
def s_exp(v): return np.exp(v) + np.log(np.exp(v))
def s_log(y): return np.log(y) + np.log1p(y)
def s_sqrt(v): return np.sqrt(v ** 2)
def s_square(v): return np.square(v)
def s_trapz(v): return np.trapezoid(v)
def s_trapz1(v): return np.trapezoid(v, dx=0.1)
def s_trapz2(a): return np.trapezoid(a, axis=0)
def s_trapzx(v, w): return np.trapezoid(v, w)
def s_cross(i): return i * 2 ** 3 ** 1 - -i
def s_inv(p): return np.linalg.inv(p)
def s_inv2(p): return np.linalg.inv(2 * p)
def s_solve(p, c): return np.linalg.solve(p, c)
def s_solvev(p, a): return np.linalg.solve(p, a[0])
def s_slog(p): return np.linalg.slogdet(p)[1]
def s_det(p): return np.log(np.linalg.det(p))
def s_chol(p): return np.linalg.cholesky(p) @ np.linalg.cholesky(p).T
def s_pinv(p): return np.linalg.pinv(p)
def s_any(v): return 1 * np.any(v > 1)
def s_all(v): return 1 * np.all(v > -1)
def s_count(v): return np.count_nonzero(v > 0)
def s_nonz(v): return len(np.nonzero(v > 0)[0])
def s_unique(z): return np.unique(z)
def s_sort(v): return np.sort(v)
def s_argsort(v): return v[np.argsort(v)]
def s_isin(z): return np.isin(z, [1, 2]).sum()
def s_isfin(v): return np.isfinite(v).all() * 1
def s_close(v, w): return np.allclose(v, v) * 1
def s_interp(v, x): return np.interp(x, np.arange(len(v)), v)
def s_f32(v): return v.astype(np.float32).astype(float) * 3
def s_f32b(n, v):
    o = np.zeros(n, dtype=np.float32)
    o[:] = v * 1.123456789123
    return o.astype(float)


def s_divarr(v, w): return v / (1 + w ** 2)
def s_rpow(v): return 2.0 ** v
def s_outeradd(v, u): return np.add.outer(v, u)
def s_mulout(v, u): return np.multiply.outer(v, u)
def s_multi(p, c): return np.linalg.multi_dot([c, p, c.T])


# --- Python
def s_list(v):
    out = []
    for x in v:
        out.append(x * 2)
    return np.array(out)


def s_comp(v): return np.array([x + 1 for x in v])
def s_compi(v, n): return np.array([v[i] * i for i in range(n)])
def s_compif(n): return sum([i for i in range(n) if i % 2 == 0])
def s_enum(v): return sum(i * x for i, x in enumerate(v))
def s_zip(v, u): return sum(x * y for x, y in zip(v, u))
def s_zip3(v, w): return np.array([x - y for x, y in zip(v, w)])
def s_revrange(n): return np.array([i for i in range(n - 1, -1, -1)])
def s_reversed(v): return np.array([x for x in reversed(v)])
def s_range2(n): return np.array([i for i in range(0, n, 2)])
def s_sumgen(v): return sum(x * x for x in v)
def s_loopacc(v):
    s = 0.0
    for x in v:
        s += x ** 2
    return s


def s_loopprefix(v, n):
    o = np.zeros(n)
    s = 0.0
    for i in range(n):
        o[i] = s
        s += v[i]
    return o


def s_looprev(v, n):
    o = np.zeros(n)
    for i in range(n - 1, 0, -1):
        o[i] = v[i - 1]
    return o


def s_loopwhile(n):
    i = 0
    s = 0
    while i < n:
        s += i
        i += 1
    return s


def s_loopover(v, n):
    o = v.copy()
    for i in range(1, n):
        o[i] = o[i - 1]
    return o


def s_looprec(v, n):
    o = np.zeros(n)
    o[0] = v[0]
    for i in range(1, n):
        o[i] = v[i] + 2 * v[i - 1]
    return o


def s_loopd(a, n, d):
    o = np.zeros((n, d))
    for i in range(n):
        for j in range(d):
            o[i, j] = a[i, j] * (i + 1) - j
    return o


def s_looptri(c, d):
    o = np.zeros((d, d))
    for i in range(d):
        for j in range(i + 1):
            o[i, j] = c[i, j]
    return o


def s_loopif(v, n):
    s = 0.0
    for i in range(n):
        if v[i] > 0:
            s += v[i]
    return s


def s_loopcont(v, n):
    s = 0.0
    for i in range(n):
        if i == 1:
            continue
        s += v[i]
    return s


def s_loopbreak(v, n):
    s = 0.0
    for i in range(n):
        if i == 2:
            break
        s += v[i]
    return s


def s_loopelse(n):
    for i in range(n):
        if i == 1:
            break
    else:
        return 5
    return 6


def s_lastvar(n):
    for i in range(n):
        pass
    return i


def s_max2(v, n):
    b = v[0]
    for i in range(1, n):
        if v[i] > b:
            b = v[i]
    return b


def s_default(v, x=3): return v * x
def s_kw(n): return np.zeros(shape=(n,)) + 1
def s_clos(v):
    y = 2.0
    f = lambda q: q * y
    y = 3.0
    return f(v)


def s_closl(v):
    fs = [lambda q, k=k: q * k for k in range(3)]
    gs = [lambda q: q * k for k in range(3)]
    return fs[1](v) + 10 * gs[0](v)


def s_mutdef(x):
    def f(y, acc=[]):
        acc.append(y)
        return sum(acc)
    f(x)
    return f(x)


def s_nonlocal(x):
    c = 0

    def f():
        nonlocal c
        c += 1
        return c
    f()
    f()
    return c * x


def s_gen(v):
    def g():
        for x in v:
            yield x * 2
    return np.array(list(g()))


def s_try(v, k):
    try:
        r = v[k] / 1.0
        return r
    finally:
        r = 99


def s_tryexc(x):
    try:
        if x > 0:
            raise ValueError("a")
        return 1
    except (KeyError, ValueError):
        return 2
    else:
        return 3


def s_dict(x, y):
    d = {"a": x, "b": y}
    d.update(c=1, a=2)
    return sum(d.values()) + len(d)


def s_dictord(x, y):
    d = {"b": y, "a": x}
    d["b"] = 1
    return np.array([v for v in d.values()])


def s_tuple(x, y):
    a, (b, *c) = x, (y, 1, 2)
    return a + b * c[1] + len(c)


def s_swapvars(x, y):
    x, y = y, x
    return x - 2 * y


def s_chain(x):
    a = b = [1]
    a.append(2)
    return len(b) + x


def s_listmul(x):
    a = [0] * 3
    b = [[0]] * 2
    b[0].append(x)
    return len(b[1]) + len(a)


def s_listadd(v): return len([1, 2] + [3])
def s_slicelist(n): return sum(list(range(n))[1:])
def s_walrus(x): return (y := x + 1) * y
def s_ternary(x): return x if x > 0 else -2 * x
def s_sorted(x): return sorted([3, 1, 2], key=lambda t: -t)
def s_any2(z): return 1 if any(q > 3 for q in z) else 0
def s_all2(z): return 1 if all(q > -9 for q in z) else 0
def s_map(v): return np.array(list(map(lambda q: q - 1, v)))
def s_star(x, y):
    def f(*a, **k): return a[0] - a[1] + k.get("z", 7)
    return f(*(x, y), **{"z": 2})


def s_cls(x):
    class A:
        n = 1

        def __init__(self, v): self.v = v
        @property
        def w(self): return self.v * 2
        @w.setter
        def w(self, z): self.v = z
        @staticmethod
        def st(z): return z + 1
        @classmethod
        def cm(cls): return cls.n

    class Bb(A):
        n = 5

        def __init__(self, v):
            super().__init__(v)
            self.v += 1
    b = Bb(x)
    b.w = b.w + 1
    return b.v + A.st(1) + b.cm() + A.n


def s_isinst(x): return isinstance(x, (int, float)) * 1
def s_identity(v):
    w = v
    return 1 if w is v else 0


def s_asarr(v):
    c = v.copy()
    d = np.asarray(c)
    d[0] = 4
    return c


def s_arrcopy(v):
    c = v.copy()
    d = np.array(c)
    d[0] = 4
    return c


def s_iadd_alias(v):
    a = v.copy()
    b = a
    a += 1
    return b


def s_add_alias(v):
    a = v.copy()
    b = a
    a = a + 1
    return b


def s_overlap(v):
    a = v.copy()
    a[1:] = a[:-1]
    return a


def s_overlap2(v):
    a = v.copy()
    a[:-1] -= a[1:]
    return a


def s_swaprows(a):
    b = a.copy()
    b[[0, 1]] = b[[1, 0]]
    return b


def s_tswap(v):
    b = v.copy()
    b[0], b[1] = b[1], b[0]
    return b


def s_rowswapview(a):
    b = a.copy()
    b[0], b[1] = b[1], b[0]
    return b


def s_bcast1(a, v): return a * v[:, None] + 1
def s_obs(v, z):
    o = np.zeros(3)
    o[[0, 2]] = [1.0, 2.0]
    return o


def s_addat(v):
    o = np.zeros(3)
    np.add.at(o, [0, 0, 2], [1.0, 2.0, 3.0])
    return o


def s_fancyadd(v):
    o = np.zeros(3)
    o[[0, 0, 2]] += 1.0
    return o


def s_matmulaug(c):
    d = c.copy()
    d = d @ d
    return d


def s_hyp(x, y): return np.hypot(x, y)
def s_logadd(x): return np.logaddexp(x, 0)
def s_nan(v): return np.isnan(v).any() * 1
def s_trunc2(x): return np.trunc(x)
def s_rint(x): return np.rint(x)
def s_npround(v): return np.round(v, 1)
def s_floatint(i): return float(i) / 2
def s_len(a): return len(a) - len(a[0])
def s_boolidx(v): return v[np.arange(len(v)) > 0]
def s_rangelen(n): return len(range(1, n, 2))
def s_strfmt(n): return "%d" % 3 + f"{2}" + "a".upper()
def s_tensor2(a, b): return np.tensordot(a, b)
def s_varax(a): return np.var(a, axis=0)
def s_stdax(a): return np.std(a, axis=1, ddof=0)
def s_meankd(a): return a - a.mean(axis=0, keepdims=True)
def s_rshape(a, n, d): return np.reshape(a, (d, n))
def s_fulllike(z, x): return np.full_like(z, x)
def s_fullint(n, x): return np.full(n, x, dtype=int)
def s_matvs(a, c): return a @ c @ a.T
def s_vmat3(v, q): return np.ones(q.shape[1]) @ q
def s_squeezeaxis(a): return a[:, :1].squeeze(1)
def s_trunc3(v): return np.trunc(v)
def s_filldiag2(c, x):
    b = c + 1
    t = b.T
    np.fill_diagonal(t, x)
    return b


# --- more Python
def s_lpop(x, y):
    l = [x, y, 3]
    a = l.pop()
    b = l.pop(0)
    l.insert(0, a)
    return np.array(l) * b


def s_lrem(x):
    l = [1, 2, 3, x]
    del l[1]
    l.remove(3)
    l.extend((4, 5))
    l[1:1] = [7]
    return np.array(l)


def s_lsliceasg(x, y):
    l = [0, 1, 2, 3]
    l[1:3] = [x]
    l[-1] = y
    return np.array(l)


def s_lsort(x):
    l = [3, 1, 2]
    l.sort(reverse=True)
    l.reverse()
    return l[0] * x + l.index(3) + l.count(1)


def s_liadd(x):
    a = [1]
    b = a
    a += [2]
    t = (1,)
    u = t
    t += (2,)
    return len(b) * 10 + len(u) + x


def s_ddel(x):
    d = dict(a=1, b=x)
    d.pop("a")
    d.setdefault("c", 4)
    d.setdefault("b", 9)
    return np.array([d["b"], d["c"], d.get("zz", 3), "a" in d])


def s_ditems(x):
    s = 0
    for k, v in {"p": x, "q": 2}.items():
        s = s * 2 + v + len(k)
    return s


def s_dcopy(x):
    d = {"a": [x]}
    e = dict(d)
    e["a"].append(1)
    e["b"] = 1
    return len(d["a"]) * 10 + len(d)


def s_deepc(x):
    import copy
    d = {"a": [x]}
    e = copy.deepcopy(d)
    f = copy.copy(d)
    e["a"].append(1)
    f["a"].append(1)
    return len(d["a"]) * 10 + len(e["a"])


def s_global(x): return _glob(x) + _glob(x)


_G = [0]


def _glob(x):
    _G[0] = x
    return _G[0]


def s_exc(x):
    try:
        try:
            raise KeyError("k")
        except KeyError as e:
            raise RuntimeError("r") from e
    except RuntimeError as e:
        return 1 if isinstance(e.__cause__, KeyError) else 0


def s_fin(x):
    r = []
    for i in range(3):
        try:
            if i == 1:
                continue
            r.append(i)
        finally:
            r.append(10)
    return np.array(r) * x


def s_with(x):
    class M:
        def __init__(self): self.n = 0
        def __enter__(self):
            self.n += 1
            return self

        def __exit__(self, *a):
            self.n += 10
            return True
    m = M()
    with m as q:
        q.n += 100
        raise ValueError
    return m.n


def s_chaincmp(x, y): return 1 if -1 < x < y else 0
def s_orval(x): return (x if x else 5) + (0 or 3) + ([] or [1])[0]
def s_isnone(x): return 1 if x is not None and x != 0 else 0
def s_in(i): return 1 if i in (1, 2, 3) else 0
def s_inrange(i, n): return 1 if i in range(n) else 0
def s_notin(i): return 1 if i not in [0, 1] else 2
def s_maskset(v):
    w = v.copy()
    w[w > 0] = 0.0
    return w


def s_maskset2(v):
    w = v.copy()
    w[w < 0] *= -1
    return w


def s_masksetv(v, w):
    u = v.copy()
    u[v < w] = w[v < w]
    return u


def s_where3(v, w): return np.where(v < w, v, w)
def s_rowscale(a):
    b = a.copy()
    b[0] *= 2
    b[:, 0] -= 1
    b[-1, -1] /= 4
    return b


def s_rowassign(a, v):
    b = a.copy()
    b[1] = b[0] + 1
    b[:, -1] = v
    return b


def s_colbroadcast(a):
    b = a.copy()
    b[:, 0] = 3
    b[1:] = b[0]
    return b


def s_backrec(v, n):
    o = np.zeros(n)
    for t in range(n - 1, 0, -1):
        o[t - 1] = v[t] - v[t - 1]
    return o


def s_backrec2(a, n, d):
    o = np.zeros((n, d))
    for t in reversed(range(n)):
        o[t] = a[t] * t
        if t > 0:
            o[t] += a[t - 1]
    return o


def s_nested(n, d):
    o = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            o[i, j] = j - i
            o[j, i] = i + j
    return o


def s_nested2(v, n):
    s = 0.0
    for i in range(n):
        for j in range(i):
            s += v[i] * v[j]
    return s


def s_loop2(v, w, n):
    a, b = 0.0, 0.0
    for i in range(n):
        a += v[i]
        b += a * w[i]
    return b


def s_loopmin(v):
    m = v[0]
    for x in v[1:]:
        m = min(m, x)
    return m


def s_loopstep(v, n):
    o = np.zeros(n)
    for i in range(1, n, 2):
        o[i] = v[i]
    return o


def s_loopneg(v, n):
    s = 0.0
    for i in range(1, n):
        s += v[-i]
    return s


def s_loopdict(v, n):
    d = {}
    for i in range(n):
        d[i] = v[i]
    return d[0] + len(d)


def s_looplist(a, n):
    l = []
    for i in range(n):
        l.append(a[i])
    l[0][0] = 5.0
    return np.array(l)


def s_looplist2(a, n):
    l = [x * 2 for x in a]
    return np.stack(l)


def s_loopreuse(a, n, d):
    l = []
    b = np.zeros(d)
    for i in range(n):
        b += a[i]
        l.append(b.copy())
    return np.array(l)


def s_loopreuse2(a, n, d):
    l = []
    b = np.zeros(d)
    for i in range(n):
        b += a[i]
        l.append(b)
    return np.array(l)


def s_looptemp(a, n, d):
    o = np.zeros((n, d))
    b = np.zeros(d)
    for i in range(n):
        b[:] = a[i]
        o[i] = b
    return o


def s_wh(y, n):
    i = n
    s = 0
    while i > 0:
        i -= 1
        s += y * i
    return s


def s_pairs(v): return np.array([p - q for p, q in zip(v[1:], v[:-1])])
def s_enum1(v): return np.array([i * x for i, x in enumerate(v, 1)])
def s_dictcomp(v): return sum({k: k * 2 for k in range(3)}.values())
def s_setlen(): return len({1, 2, 2, 3})
def s_nestcomp(c, d): return np.array([[c[j, i] for j in range(d)] for i in range(d)])
def s_sumcomp(c, d): return sum(c[i, i] for i in range(d))
def s_minkey(x): return min([3, 1, 2], key=lambda q: abs(q - 2))
def s_unpackarr(x):
    a, b = np.array([x, 2.0])
    return a * b


def s_unpackrow(e):
    return np.array([r[0] - r[-1] for r in e])


def s_zipt(a):
    return np.array([c.sum() for c in a.T])


def s_str(x): return 1 if "ab" + "c" == "abc" and "B".lower() in ("a", "b") else 0
def s_getattr(v): return getattr(v, "shape")[0] + getattr(v, "nope", 3)
def s_callable(x): return 1 if callable(np.sum) and not callable(x) else 0
def s_partial(x, y):
    from functools import partial
    return partial(lambda a, b: a - 2 * b, x)(b=y)


def s_reduce(v):
    from functools import reduce
    return reduce(lambda a, b: a * 2 + b, [1, 2, 3]) + v[0]


def s_prodr(y):
    r = 1
    for i in range(4):
        r *= y
    return r


def s_powk(y, j): return y ** j
def s_expm(y): return np.expm1(y)
def s_diffpow(v): return (v - v.mean()) ** 2
def s_quad(v, c, d): return np.dot(np.dot(c[0], c), c[0])
def s_outer2(a): return a[0][:, None] * a[0][None, :]
def s_bsum(q, c): return (q * c).sum(axis=(1, 2))
def s_trp(q, c): return np.array([np.trace(x @ c) for x in q])
def s_solvestack(p, a): return np.linalg.solve(p, a.T).T
def s_invstack(p, q): return np.linalg.inv(p)[None] @ q
def s_cho(p): return np.diag(np.linalg.cholesky(p)).sum() * 0 + np.log(np.diag(np.linalg.cholesky(p))).sum()
def s_divzero(x): return x / 0
def s_negidx(a): return a[-1, -1] + a[-2][0]
def s_slicestep(a): return a[::2, ::-1]
def s_ellset(a):
    b = a.copy()
    b[..., 0] = 1
    return b


def s_newaxset(v, d):
    b = np.zeros((len(v), d))
    b += v[:, np.newaxis]
    return b


def s_eq(v, w): return (v == w).sum() + (v != v).sum()
def s_bandb(v): return ((v > 0) & (v < 1)).sum() + (~(v > 0)).sum() + ((v > 2) | (v < -2)).sum()
def s_boolmul(v): return (v > 0) * v
def s_cond(v, k): return 1.0 if v[k] > 0 and v[0] < 1 or v[-1] > 2 else 0.0
def s_zint(z): return z.sum() // 2
def s_zmean(z): return z.mean()
def s_zlist(z, v): return np.array([v[q % len(v)] for q in z])
def s_fancyz(v, z): return v[z % len(v)]
def s_fancyneg(v): return v[[-1, 0]]
def s_fancy2(c): return c[[0, -1], [0, -1]]
def s_ix(c): return c[np.ix_([0, -1], [0])]
def s_take(a): return np.take(a, [0, 1], axis=0)
def s_splt(v): return np.array([x.sum() for x in np.split(v, [1])])
def s_concslice(v, u, n): return np.concatenate((v, u))[n:]
def s_concat3(v, u): return np.concatenate([v, [1.0], u])[:len(v) + 1]
def s_hst(a, b): return np.hstack((a, b))
def s_vst(a, v): return np.vstack((a, np.ones((1, a.shape[1]))))
def s_arr2(x, y): return np.array([[x, 1], [2, y]]) @ np.array([1, 2])
def s_emptyl(): return np.array([]).size
def s_lin3(x, y): return np.linspace(x, y, 4)
def s_ar3(x): return x + np.arange(0, 1, 0.25)
def s_roll2(a): return np.roll(a, 1, axis=0)
def s_rollneg(v): return np.roll(v, -1)
def s_flip0(a): return np.flip(a, 0)
def s_flipall(a): return np.flip(a)
def s_flipud(a): return a[::-1]
def s_rep0(a): return np.repeat(a, 2, axis=0)
def s_tile2(a): return np.tile(a, (2, 1))
def s_eyem(d): return np.eye(d, d + 1)
def s_idn(d): return np.identity(d) * 2
def s_diagadd(c, y): return c + np.diag(np.full(c.shape[0], y))
def s_clip2(x): return np.clip(x, 0, None)
def s_sgn0(i): return np.sign(i)
def s_nestcomp2(c, d): return np.array([[c[i, j] if i == j else 0.0 for j in range(d)] for i in range(d)])
def s_nestcomp3(a, c): return np.array([[np.dot(x, y) for y in c] for x in a])
def s_nestcomp4(c, d): return np.array([[c[i] * j for j in range(d)] for i in range(d)])
def s_nestcomp5(c, d): return np.array([sum([c[i, j] for j in range(i)]) for i in range(d)])
def s_nestcomp6(c, d): return sum([len([c[i, j] for j in range(i)]) for i in range(d)])
def s_nestcomp7(c, d): return [[c[i, j] for j in range(d)] + [1.0] for i in range(d)][-1][-2]
def s_nestcomp8(c, d): return [[c[i] * j for j in range(d)] for i in range(d)][-1][-1]
def s_nestcomp9(c, d): return np.array([[c[i] * 2 for i in range(d)] for j in range(d)])
