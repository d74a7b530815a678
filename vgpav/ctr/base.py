"""Building blocks of the contracts: symbolic arguments, obligations, paths."""
import contextlib
import itertools
import traceback

from ..eng import ctx as C
from ..eng import linalg as L
from ..eng import load
from ..eng import state as St
from ..eng import loops as Lp
from ..eng import terms as T
from ..eng import val as V
from ..eng.prove import is_zero
from ..eng.terms import P, ONE, ZERO, add, mul, neg
from ..eng.seq import Seq, SList
from ..eng.val import Arr, Num, from_fn, poly


class Handled(BaseException):
    pass


class Elsewhere:
    """Stands for a group another worker does: leaves the group at its first use."""

    def __getattr__(self, n):
        raise Handled()


class Job:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.obs, self.order = {}, []
        self.functions, self.assumptions, self.trusted, self.bounded = [], [], [], []
        self.level = "proof"
        self.count, self.share = 0, None

    # -- obligations
    def ob(self, name, ok, why="", detail=""):
        name = "%s/%s" % (self.pid, name)
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = {"name": name, "ok": True, "why": "", "detail": ""}
            self.order.append(name)
        if not ok and o["ok"]:
            o.update(ok=False, why=str(why)[:600], detail=str(detail)[:3000])

    def under(self, *fns):
        for f in fns:
            if f not in self.functions:
                self.functions.append(f)

    def assume(self, *xs):
        for x in xs:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def trust(self, *xs):
        for x in xs:
            if x not in self.trusted:
                self.trusted.append(x)

    @contextlib.contextmanager
    def scope(self, name):
        """One verification condition group: facts are local, failures are recorded.  Groups
        are dealt out to the worker processes."""
        k, self.count = self.count, self.count + 1
        if self.share is not None and k % self.share[1] != self.share[0]:
            try:
                yield Elsewhere()
            except Handled:
                pass
            return
        n = C.mark()
        j = len(V.JOURNAL)
        del V.PATHS[:]
        del Lp.GENERIC[:]
        s = Scope(self, name)
        try:
            yield s
            if not s.named:
                self.ob(name + "/none", False, "no obligation was generated")
        except V.Stop as e:
            self.ob(name + "/understood", False, "%s: %s" % (type(e).__name__, e),
                    traceback.format_exc()[-1800:])
        except (T.Unsupported, RecursionError) as e:
            self.ob(name + "/understood", False, "%s: %s" % (type(e).__name__, str(e)[:300]),
                    traceback.format_exc()[-1800:])
        except Exception as e:
            self.ob(name + "/verifier", False, "%s: %s" % (type(e).__name__, e),
                    traceback.format_exc()[-1800:])
        finally:
            V.undo_to(j)
            C.release(n)


class Scope:
    count = 0

    def __init__(self, job, name):
        self.job, self.name, self.named = job, name, 0
        self.watches, self.suffix = [], ""
        Scope.count += 1
        self.uid = Scope.count

    # -- arguments
    def sym(self, name, *facts, isint=False):
        p = P(T.sym(name, isint))
        return Num(p)

    def real(self, name):
        return Num(P(T.sym(name)))

    def pos(self, name):
        p = P(T.sym(name))
        C.learn([("lt", neg(p))])
        return Num(p)

    def int(self, name, lo=None, hi=None):
        p = P(T.sym(name, True))
        fs = []
        if lo is not None:
            fs.append(("le", P(lo) - p))
        if hi is not None:
            fs.append(("le", p - P(hi)))
        C.learn(fs)
        return Num(p)

    def arr(self, name, *shape, sym=None, kind="f"):
        shape = tuple(poly(d) for d in shape)
        name = "%s@%d" % (name, self.uid)
        fam = T.FAM.setdefault(name, {})
        if sym:
            fam["sym"] = sym
        if kind == "i":
            fam["isint"] = True
        return from_fn(shape, lambda i: T.app(name, i), kind)

    def pd(self, name, *shape):
        """Array of symmetric positive-definite matrices (last two axes)."""
        k = len(shape)
        a = self.arr(name, *shape, sym=(k - 2, k - 1))
        L.PDFAM.add("%s@%d" % (name, self.uid))
        return a

    def lemma(self, name, args, hyps, fact):
        """A ghost lemma over real numbers, hyps(x..) => fact(x..): proved by itself for
        arbitrary reals, then available for the arguments."""
        xs = [P(T.fresh("l", False)) for _ in args]
        with C.assume(hyps(*xs)):
            C.LEMMA[0] += 1
            try:
                op, p = fact(*xs)
                ok = C._smt(op, p, C._relevant(p)) is True
            finally:
                C.LEMMA[0] -= 1
        self.ob("lemma: " + name, ok, "the lemma is not proved")
        if ok:
            args = [poly(a) for a in args]
            C.learn([("or", [V.negate(h) for h in hyps(*args)] + [fact(*args)])])

    def learn(self, *facts):
        C.learn(facts)

    def world(self, replace=None, ext=None, watch=True):
        if not watch:
            return load.World(replace, ext)
        w = St.Watch(self)
        self.watches.append(w)
        return load.World(replace, ext, w)

    # -- obligations
    def ob(self, label, ok, why="", detail=""):
        self.named += 1
        self.job.ob(self.name + self.suffix + "/" + label, ok, why, detail)

    def check(self, label, cond, why="does not hold"):
        self.ob(label, bool(cond), why)

    def eq(self, label, got, want):
        """Scalar equality."""
        try:
            g, w = poly(got), poly(want)
        except V.NotUnderstood as e:
            self.ob(label, False, str(e))
            return False
        d = g - w
        ok = is_zero(d)
        self.ob(label, ok, "" if ok else "not the specified value",
                "" if ok else "got  %s\nwant %s\ndiff %s" % (
                    T.show(g)[:900], T.show(w)[:900], T.show(d)[:900]))
        return ok

    def arr_eq(self, label, got, shape, want, facts=(), idx_facts=None):
        """got is an array of the shape with entries want(idx) at every index."""
        shape = tuple(poly(d) for d in shape)
        if V.is_scalar(got) and not shape:
            return self.eq(label, got, want(()))
        if not isinstance(got, Arr):
            try:
                got = V.as_arr(got)
            except V.NotUnderstood as e:
                self.ob(label, False, "not an array: %s" % e)
                return False
        if len(got.shape) != len(shape) or not all(
                is_zero(a - b) for a, b in zip(got.shape, shape)):
            self.ob(label, False, "shape is %s, not %s" % (
                [T.show(d) for d in got.shape], [T.show(d) for d in shape]))
            return False
        small = [d.const() is not None and d.const() <= 6 for d in shape]
        ok = True
        for pt in itertools.product(*[range(int(d.const())) if k else (None,)
                                      for d, k in zip(shape, small)]):
            ss = [None if k else T.fresh("i") for k in small]
            idx = tuple(T.num(c) if k else P(s) for s, k, c in zip(ss, small, pt))
            bs = [(s, d) for s, d, k in zip(ss, shape, small) if not k]
            with C.binders(bs), C.assume(
                    list(facts) + (list(idx_facts(idx)) if idx_facts else [])):
                g, w = got.get(idx), P(want(idx))
                d = g - w
                ok = is_zero(d)
                at = "" if all(c is None for c in pt) else " at %s" % (pt,)
                self.ob(label, ok, "" if ok else "an entry is not the specified value" + at,
                        "" if ok else "got  %s\nwant %s\ndiff %s" % (
                            T.show(g)[:900], T.show(w)[:900], T.show(d)[:900]))
            if not ok:
                break
        return ok

    def explore(self, fn, post, raises=None):
        """post(value) with every returning path's facts; raises(exc) -> True if the
        exception is what the contract asks for on this path."""
        if not C.consistent():
            self.ob("precondition is satisfiable", False, "contradictory precondition")
            return
        seen = {"return": 0, "raise": 0}

        def end(kind, v):
            if not C.consistent():
                return
            seen[kind] += 1
            if kind == "raise":
                ok = bool(raises(v)) if raises else False
                self.ob("exceptions", ok, "%s: %s" % (type(v).__name__, v),
                        "".join(traceback.format_exception(v))[-1500:])
            else:
                post(v)
            for w in self.watches:
                w.end_path()
        V.explore(fn, end)
        self.after_other_calls(fn, end)
        if raises is None and not seen["return"]:
            self.ob("returns", False, "no path returns")
        return seen

    def after_other_calls(self, fn, end):
        """If calls leave state behind: the same contract from any such state."""
        done = None
        for _ in range(4):
            known = {(n, p.same) for w in self.watches for n, p in w.places.items()}
            if not known or known == done:
                return
            done = known
            for mode in ("fresh", "same"):
                if mode == "same" and not any(q is not None for _, q in known):
                    continue
                self.suffix = "[after other calls]"
                for w in self.watches:
                    w.mode = mode
                try:
                    V.explore(fn, end)
                finally:
                    self.suffix = ""
                    for w in self.watches:
                        w.mode = None
        self.ob("state kept between calls", False, "it does not settle")

    def unchanged(self, label, *arrs):
        """Arrays keep their contents: call before the code runs; returns a checker."""
        lists = [(a, a.chunks) for a in arrs if isinstance(a, SList)]
        nodes = [(a, a.store.cur) for a in arrs if not isinstance(a, SList)]

        def chk():
            for a, ch in lists:
                if a.chunks is not ch:
                    self.ob(label, False, "an argument list is modified")
                    return
            for a, n in nodes:
                if a.store.cur is n:
                    continue
                ss = [T.fresh("i") for _ in a.shape]
                with C.binders(list(zip(ss, a.shape))):
                    idx = tuple(P(s) for s in ss)
                    if not is_zero(a.get(idx) - n.read(a.map(idx))):
                        self.ob(label, False, "an argument array is modified")
                        return
            self.ob(label, True)
        return chk


def S(ext, f):
    """sum_{v < ext} f(v)."""
    v = T.fresh("s")
    e = poly(ext)
    with C.binders([(v, e)]):
        b = P(f(P(v)))
    return T.mksum(v, e, b)


def S2(e1, e2, f):
    return S(e1, lambda i: S(e2, lambda j: f(i, j)))


def delta(i, j):
    return T.bracket("eq", P(i) - P(j))


def le(a, b):
    """The fact a <= b."""
    return ("le", poly(a) - poly(b))


def lt(a, b):
    return ("lt", poly(a) - poly(b))


def ident_of(n):
    return from_fn((poly(n), poly(n)), lambda i: delta(i[0], i[1]))


def fact_eq(a, b):
    return ("eq", poly(a) - poly(b))
