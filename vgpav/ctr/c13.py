"""Scaled conjugate gradients, for any objective and any vector passed off as its gradient:
Hoare logic over the main loop, with the invariant found by elimination (eng/hoare.py)."""
from ..eng import hoare
from .base import *

MOD = "src.numerics.optim_scg"


def contracts(J):
    J.under(MOD + ".SCG.__init__", MOD + ".SCG.__call__", MOD + ".SCG.statistics")
    J.assume("the objective and the gradient are functions of the point (the same point gives "
             "the same value) and do not change it",
             "the first search direction and later ones are exact real vectors; the divisors "
             "kappa, mu and delta are not zero")
    for opts in ("full", "none"):
        for args in (0, 1):
            with J.scope("SCG[options %s, %s]" % (opts, "extra argument" if args else
                                                  "no extra arguments")) as s:
                one(s, opts, args, 1)
    with J.scope("SCG[row vector]") as s:
        one(s, "full", 0, 2)
    with J.scope("SCG[display]") as s:
        one(s, "display", 0, 1)


class Ghost:
    def __init__(self):
        self.nf, self.ndf = Num(ZERO), Num(ZERO)

    def add(self, n):
        from ..eng.seq import AttrChange
        V.JOURNAL.append(AttrChange(self, n))
        setattr(self, n, getattr(self, n) + 1)


def one(s, opts, nargs, nd):
    w = s.world()
    D = s.int("D", 1)
    d = poly(D)
    x0 = s.arr("x0", D) if nd == 1 else s.arr("x0", 1, D)
    start = (lambda i: x0.get((i,))) if nd == 1 else (lambda i: x0.get((ZERO, i)))
    keep = s.unchanged("starting point unchanged", x0)
    tag = tuple(object() for _ in range(nargs))
    nit = s.int("nit", 1) if opts != "none" else None
    par = {"max_it": nit, "x_tol": s.pos("xt"), "f_tol": s.pos("ft"), "display": opts == "display"}
    uid = s.uid

    def obj(get):
        i = T.fresh("i")
        with C.binders([(i, d)]):
            e = P(get((P(i),)))
        return T.mkfun("objective@%d" % uid, (d,), (i,), (e,), ())

    def grad(get):
        i = T.fresh("i")
        with C.binders([(i, d)]):
            e = P(get((P(i),)))
        return lambda j: T.mkfun("gradient@%d" % uid, (d,), (i,), (e,), tuple(j))

    def point(x, what):
        ok = isinstance(x, Arr) and len(x.shape) == 1 and is_zero(x.shape[0] - d)
        s.ob("point passed to the " + what, ok, "not a vector of the dimension of the start")
        if not ok:
            V.unsupported("point of the wrong shape")
        return x.snap()
    pol = hoare.Policy({"objective": obj}, rows=lambda name: "'fx'" in name)

    def run():
        g = Ghost()
        pol.roots = {"ghost": g}

        def f(x, *a):
            g.add("nf")
            s.ob("arguments of the objective", len(a) == len(tag) and all(
                p is q for p, q in zip(a, tag)), "not those the optimizer was called with")
            return Num(obj(point(x, "objective")))

        def df(x, *a, eval_fun=False, **k):
            g.add("ndf")
            if eval_fun or (a and a[0] is True):
                g.add("nf")
            return from_fn((d,), grad(point(x, "gradient")))
        o = w.get(MOD, "SCG")(f, df, *([] if opts == "none" else [dict(par)]))
        r = o(x0, *tag)
        return r, o.statistics, g

    def post(t):
        r, st, g = t
        keep()
        ok = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Arr) and len(
            r[0].shape) == 1 and is_zero(r[0].shape[0] - d) and V.is_scalar(r[1])
        s.ob("result", ok, "not (point, value)")
        if not ok:
            return
        x, fx = r[0].snap(), poly(r[1])
        pr = hoare.proved

        def need(label, *facts, why="cannot be shown"):
            bad = [f for f in facts if not pr(f)]
            s.ob(label, not bad, why, "" if not bad else "%s: %s" % (
                bad[0][0], T.show(bad[0][1])[:1500]))
        need("reported value is the objective at the returned point", ("eq", fx - obj(x)))
        need("never worse than the starting point",
             ("le", fx - obj(lambda i: start(i[0]))))
        need("function evaluations counted", ("eq", poly(st["f_eval"]) - poly(g.nf)))
        need("gradient evaluations counted", ("eq", poly(st["df_eval"]) - poly(g.ndf)))
        n = P(150) if nit is None else poly(nit)
        M = poly(st["MaxIt"])
        need("iteration limit", ("le", M - n), ("le", 1 - M), ("le", poly(g.ndf) - n * 2 - 1))
        h = V.as_arr(st["fx"]).snap()
        k = P(T.fresh("k"))
        H = lambda i: h((i,))
        with C.assume([("le", neg(k)), ("le", k - M + 3)]):
            need("recorded values never increase", ("le", H(k + 1) - H(k)))
        with C.assume([("le", neg(k)), ("le", k - M + 2)]):
            need("reported value below every recorded one", ("le", fx - H(k)))
            need("recorded values start no higher", ("le", H(ZERO) - obj(lambda i: start(i[0]))))
        last = H(M - 1)
        # an iteration that stops before recording leaves its entry zero
        if not pr(("eq", last)):
            need("reported value below every recorded one", ("le", fx - last))
            with C.assume([("le", 2 - M)]):
                need("recorded values never increase", ("le", last - H(M - 2)))
    with hoare.using(pol):
        s.explore(run, post)
