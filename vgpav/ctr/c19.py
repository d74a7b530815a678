"""Valid noise: created / changed exactly with valid values, stored inverse matches, a
rejected change changes nothing.  Every value, every size."""
from .base import *
from .c10 import LFUN
from .c18 import MODELS
from .vgp import freeze, same


def contracts(J):
    for m, c in MODELS.values():
        J.under(*["%s.%s.%s" % (m, c, x) for x in ("__init__", "sigma", "theta", "inverse_sigma")])
    J.under("src.numerics.utilities.chol_inv (inlined)")
    J.trust("a symmetric matrix has positive eigenvalues exactly if it is positive definite, "
            "exactly if its Cholesky factor exists")
    J.assume("matrices given as noise are symmetric (the property says so)")
    for mod in ("DW", "OU"):
        with J.scope("%s created" % MODELS[mod][1]) as s:
            scalar_created(s, mod)
        for what in ("sigma", "theta"):
            for n in (1, 2):
                with J.scope("%s.%s changed[%d changes]" % (MODELS[mod][1], what, n)) as s:
                    scalar_changed(s, mod, what, n)
    for mod in ("L63", "L96"):
        for kind in ("scalar", "vector", "matrix", "vector of another size",
                     "matrix of another size", "three axes"):
            with J.scope("%s created[%s]" % (MODELS[mod][1], kind)) as s:
                matrix_created(s, mod, kind)
        for kind in ("matrix", "diagonal", "matrix of another size", "vector", "scalar array",
                     "matrix after a change", "theta"):
            with J.scope("%s changed[%s]" % (MODELS[mod][1], kind)) as s:
                matrix_changed(s, mod, kind)


def decided(c):
    return bool(c)


def scalar_created(s, mod):
    w = s.world()
    cls = w.get(*MODELS[mod])
    q, th = s.real("q"), s.real("th")

    def run():
        try:
            p = cls(q, th, 3)
        except Exception as e:
            p = e
        valid = q > 0
        if mod == "OU":
            valid = valid & (th > 0)
        return p, bool(valid)

    def post(r):
        p, ok = r
        if isinstance(p, Exception):
            s.ob("valid values are accepted", not ok, "%s: %s" % (type(p).__name__, p))
        else:
            s.ob("invalid values are rejected", ok, "accepted")
            if ok:
                good(s, p, q)
                s.eq("drift parameter", p.theta, th)
    s.explore(run, post)


def good(s, p, q, label=""):
    s.eq(label + "exposed noise is the given one", p.sigma, q)
    s.eq(label + "exposed inverse noise is the inverse", Num(poly(p.inverse_sigma)) * q, Num(ONE))


def scalar_changed(s, mod, what, n):
    w = s.world()
    cls = w.get(*MODELS[mod])
    q0, th0 = s.pos("q0"), s.pos("th0")
    q1, th1 = s.pos("q1"), s.pos("th1")
    v = s.real("v")

    def run():
        p = cls(q0, th0, 3)
        q, th = q0, th0
        if n == 2:
            p.sigma = q1
            p.theta = th1
            q, th = q1, th1
        try:
            setattr(p, what, v)
            err = None
        except Exception as e:
            err = e
        valid = True if what == "theta" and mod == "DW" else bool(v > 0)
        return p, q, th, err, valid

    def post(r):
        p, q, th, err, valid = r
        if err is not None:
            s.ob("a valid value is accepted", not valid, "%s: %s" % (type(err).__name__, err))
            good(s, p, q, "after a rejected change: ")
            s.eq("after a rejected change: drift parameter", p.theta, th)
            return
        s.ob("an invalid value is rejected", valid, "accepted")
        if valid:
            good(s, p, v if what == "sigma" else q)
            s.eq("drift parameter", p.theta, v if what == "theta" else th)
    s.explore(run, post)


def sizes(s, mod):
    return P(3) if mod == "L63" else poly(s.int("D", 10))


def process(s, w, mod, q, D, th):
    cls = w.get(*MODELS[mod])
    return cls(q, th, 3) if mod == "L63" else cls(q, th, 3, Num(D))


def inverse_ok(s, p, sg, D, label=""):
    """sg: Arr with the wanted noise."""
    s.arr_eq(label + "exposed noise is the given one", p.sigma, (D, D), lambda i: sg.get(i))
    s.arr_eq(label + "exposed inverse noise is the inverse", p.inverse_sigma, (D, D),
             lambda i: LFUN("inv", sg)(*i))


def theta(s, mod, name="th"):
    return s.arr(name, 3) if mod == "L63" else s.real(name)


def matrix_created(s, mod, kind):
    w = s.world()
    D = sizes(s, mod)
    th = theta(s, mod)
    k, l = s.int("k", 0), s.int("l", 0)
    sg = None
    if kind == "scalar":
        q = s.real("q")
        sg = from_fn((D, D), lambda i: mul(delta(i[0], i[1]), poly(q)))
        valid = lambda: bool(q > 0)
    elif kind == "vector":
        q = s.arr("q", D)
        sg = from_fn((D, D), lambda i: mul(delta(i[0], i[1]), q.get((i[0],))))
        valid = lambda: bool(L.pd_cond(sg))
    elif kind == "matrix":
        q = sg = s.arr("q", D, D, sym=(0, 1))
        valid = lambda: bool(L.pd_cond(q))
    else:
        valid = lambda: False
        if kind == "vector of another size":
            s.learn(("ne", poly(k) - D))
            q = s.arr("q", k)
        elif kind == "matrix of another size":
            s.learn(("or", [("ne", poly(k) - D), ("ne", poly(l) - D)]))
            q = s.arr("q", k, l)
        else:
            q = s.arr("q", D, D, k)

    def run():
        try:
            p = process(s, w, mod, q, D, th)
        except Exception as e:
            p = e
        return p, valid()

    def post(r):
        p, ok = r
        if isinstance(p, Exception):
            s.ob("valid noise is accepted", not ok, "%s: %s" % (type(p).__name__, p))
            return
        s.ob("invalid noise is rejected", ok, "accepted")
        if ok:
            inverse_ok(s, p, sg, D)
            s.ob("drift parameters", same(freeze(p.theta), freeze(th)), "not the given ones")
    s.explore(run, post)
    for x in ("invalid noise is rejected",):
        s.ob(x, True)


def matrix_changed(s, mod, kind):
    w = s.world()
    D = sizes(s, mod)
    th, th1 = theta(s, mod), theta(s, mod, "th1")
    q0 = s.pd("q0", D, D)
    q1 = s.pd("q1", D, D)
    k, l = s.int("k", 0), s.int("l", 0)
    what, valid = "sigma", lambda: False
    if kind in ("matrix", "matrix after a change"):
        v = s.arr("v", D, D, sym=(0, 1))
        valid = lambda: bool(L.pd_cond(v))
    elif kind == "diagonal":
        g = s.arr("v", D)
        v = from_fn((D, D), lambda i: mul(delta(i[0], i[1]), g.get((i[0],))))
        valid = lambda: bool(L.pd_cond(v))
    elif kind == "matrix of another size":
        s.learn(("or", [("ne", poly(k) - D), ("ne", poly(l) - D)]))
        v = s.arr("v", k, l)
    elif kind == "vector":
        v = s.arr("v", k)
    elif kind == "scalar array":
        v = from_fn((), lambda i: T.app("v@%d" % s.uid, (ONE,)))
    else:
        what, v, valid = "theta", theta(s, mod, "th2"), lambda: True

    def run():
        p = process(s, w, mod, q0, D, th)
        q, t = q0, th
        if kind == "matrix after a change":
            p.sigma = q1
            p.theta = th1
            q, t = q1, th1
        try:
            setattr(p, what, v)
            err = None
        except Exception as e:
            err = e
        return p, q, t, err, valid()

    def post(r):
        p, q, t, err, ok = r
        if err is not None:
            s.ob("a valid value is accepted", not ok, "%s: %s" % (type(err).__name__, err))
        else:
            s.ob("an invalid value is rejected", ok, "accepted")
            if not ok:
                return
            q, t = (v, t) if what == "sigma" else (q, v)
        tag = "after a rejected change: " if err is not None else ""
        inverse_ok(s, p, q, D, tag)
        s.ob(tag + "drift parameters", same(freeze(p.theta), freeze(t)), "not the given ones")
    s.explore(run, post)
    s.ob("an invalid value is rejected", True)
