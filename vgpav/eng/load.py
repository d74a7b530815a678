"""Loads the modules of /repo from their current source, with the statements the verifier
has to see (loops, attribute assignment, displays, float literals, division) rewritten into
calls; everything else runs as written.

What the rewriting drops: annotations and doc strings, decorators of numba (njit is the
identity), and rounding: a float literal denotes its decimal value."""
import ast
import builtins
import copy
import os
import sys
from fractions import Fraction

from . import loops as Lp
from . import npshim as N
from . import linalg as L
from . import seq as S
from . import terms as T
from . import val as V
from .seq import SDict, SList
from .val import Arr, Cond, Num, DType, poly, unsupported

REPO = os.environ.get("VGPAV_REPO", "/repo")


# ------------------------------------------------------------------ transform
class Names(ast.NodeVisitor):
    """Names bound by a statement list, without nested scopes."""

    def __init__(self):
        self.names, self.skip = set(), set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.skip.update(n.names)

    def visit_Nonlocal(self, n):
        self.skip.update(n.names)

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def bound(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.names - v.skip


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def own_nodes(fn):
    """The nodes of a function body, those of nested scopes left out."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def has_yield(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn))


def collect_yields(fn, name):
    """A generator function whose yields are statements, as one that returns the sequence
    of what it yields; None if it is of another form (endless, sent values, decorated)."""
    statements = {id(n.value) for n in own_nodes(fn) if isinstance(n, ast.Expr)}
    for n in own_nodes(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and id(n) not in statements \
                or isinstance(n, (ast.While, ast.Try)) \
                or isinstance(n, ast.Return) and n.value is not None:
            return None
    if fn.decorator_list and any(not (isinstance(d, ast.Name) and d.id in
                                      ("staticmethod", "classmethod"))
                                 for d in fn.decorator_list):
        return None

    class Sub(ast.NodeTransformer):
        def visit_FunctionDef(self, n):
            return n
        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Expr(self, n):
            v = n.value
            if isinstance(v, ast.Yield):
                return ast.copy_location(ast.Expr(parse_expr(
                    name + ".append(A)", A=v.value or ast.Constant(None))), n)
            if isinstance(v, ast.YieldFrom):
                return ast.copy_location(ast.Expr(parse_expr(name + ".extend(A)", A=v.value)), n)
            return n

        def visit_Return(self, n):
            return ast.copy_location(ast.Return(ast.Name(name, ast.Load())), n)
    fn.body = parse_stmts(name + " = []") + [Sub().visit(s) for s in fn.body] + \
        parse_stmts("return " + name)
    return fn


def parse_expr(src, **kw):
    e = ast.parse(src, mode="eval").body

    class Sub(ast.NodeTransformer):
        def visit_Name(self, n):
            return kw.get(n.id, n)
    return Sub().visit(e)


def parse_stmts(src):
    return ast.parse(src).body


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.fn = []          # stack of dicts: {"node", "extra": names, "native": bool}
        self.n = 0
        self.inloop = 0

    def uid(self):
        self.n += 1
        return self.n

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(parse_expr("__vg__.lit(%r)" % repr(n.value)), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return ast.copy_location(parse_expr("__vg__.text(A)", A=n), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(parse_expr("__vg__.div(A, B)", A=n.left, B=n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(parse_expr("__vg__.pow(A, B)", A=n.left, B=n.right), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "shape" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(parse_expr("__vg__.shape(A)", A=n.value), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.fn:
            first = self.fn[0]["node"].args.args
            if first:
                n.args = [ast.Name("__class__", ast.Load()), ast.Name(first[0].arg, ast.Load())]
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                return ast.copy_location(parse_expr("__vg__.mkstar(A)", A=starred(n)), n)
            return ast.copy_location(parse_expr("__vg__.mklist(A)", A=n), n)
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return ast.copy_location(parse_expr("__vg__.mkstar(A, True)", A=starred(n)), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(parse_expr("__vg__.mkdict(A)", A=n), n)

    def _comp(self, elt, gens):
        g = gens[0]
        rest = gens[1:]
        bound = {x.id for q in gens for x in ast.walk(q.target) if isinstance(x, ast.Name)}
        for f in ast.walk(elt):
            # a function made here would see the last value of the variable in Python
            if isinstance(f, ast.Lambda) and getattr(f, "in_source", False) and any(
                    isinstance(x, ast.Name) and x.id in bound for x in ast.walk(f.body)) \
                    and not bound & {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}:
                return parse_expr("__vg__.refuse('function over the variable of a comprehension')")
        inner = elt if not rest else self._comp(elt, rest)
        fn = self._lam(g.target, inner)
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self._lam(g.target, c)
        call = parse_expr("__vg__.comp(A, F, C)" if cond else "__vg__.comp(A, F)",
                          A=g.iter, F=fn, C=cond)
        if rest:
            call = parse_expr("__vg__.flat(A)", A=call)
        return call

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(target.id)],
                              kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        if isinstance(target, (ast.Tuple, ast.List)) and \
                all(isinstance(e, ast.Name) for e in target.elts):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[
                ast.arg(e.id) for e in target.elts], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=body)
            return parse_expr("lambda t__: F(*t__)", F=lam)
        if isinstance(target, (ast.Tuple, ast.List)):
            # nested targets: peel one level at a time
            names = [ast.Name("c%d__" % self.uid(), ast.Load()) for _ in target.elts]
            inner = body
            for nm, e in zip(names, target.elts):
                if isinstance(e, ast.Name):
                    nm.id = e.id
                else:
                    inner = ast.Call(self._lam(e, inner), [nm], [])
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[
                ast.arg(x.id) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=inner)
            return parse_expr("lambda t__: F(*t__)", F=lam)
        raise SyntaxError("comprehension target")

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(self._comp(n.elt, n.generators), n)
    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(parse_expr("set(A)", A=self._comp(n.elt, n.generators)), n)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        t = ast.Tuple([n.key, n.value], ast.Load())
        return ast.copy_location(parse_expr("__vg__.mkdict(A)", A=self._comp(t, n.generators)), n)

    # ---- definitions
    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        deco = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        if has_yield(n):
            collect_yields(n, "gen%d__" % self.uid())
        info = {"node": n, "extra": set(), "native": has_yield(n)}
        self.fn.append(info)
        saved, self.inloop = self.inloop, 0
        body = []
        for s in n.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r] if r is not None else [])
        self.inloop = saved
        self.fn.pop()
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for a in (n.args.vararg, n.args.kwarg):
            if a:
                params.add(a.arg)
        v = Names()
        for s in body:
            v.visit(s)
        extra = sorted(info["extra"] - params - v.skip)
        if extra:
            body = parse_stmts("if False:\n " + " = ".join(extra) + " = None") + body
        n.body, n.decorator_list = body, deco
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        n.in_source = True
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign([n.target], n.value), n))

    # ---- statements
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        post = []
        n.targets = [self._target(t, post) for t in n.targets]
        if len(n.targets) == 1 and len(post) == 1 and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id == post[0].value.args[2].id:
            post[0].value.args[2] = n.value
            return ast.copy_location(post[0], n)
        return [ast.copy_location(n, n)] + [ast.copy_location(p, n) for p in post]

    def _target(self, t, post):
        if isinstance(t, ast.Attribute):
            nm = "a%d__" % self.uid()
            call = parse_expr("__vg__.setattr(A, B, C)", A=self.visit(t.value),
                              B=ast.Constant(t.attr), C=ast.Name(nm, ast.Load()))
            post.append(ast.Expr(call))
            return ast.Name(nm, ast.Store())
        if isinstance(t, (ast.Tuple, ast.List)):
            return ast.Tuple([self._target(e, post) for e in t.elts], ast.Store())
        if isinstance(t, ast.Starred):
            return ast.Starred(self._target(t.value, post), ast.Store())
        return self.visit(t)

    def visit_AugAssign(self, n):
        op = type(n.op).__name__
        val = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            if op not in ("Div", "Pow"):
                n.value = val
                return n
            e = parse_expr("__vg__.aug(O, A, B)", O=ast.Constant(op),
                           A=ast.Name(n.target.id, ast.Load()), B=val)
            return ast.copy_location(ast.Assign([n.target], e), n)
        k = self.uid()
        if isinstance(n.target, ast.Attribute):
            src = "o%d__ = A\n__vg__.setattr(o%d__, %r, __vg__.aug(%r, o%d__.%s, B))" % (
                k, k, n.target.attr, op, k, n.target.attr)
            tv = self.visit(n.target.value)
        else:
            src = "o%d__, i%d__ = A, I\no%d__[i%d__] = __vg__.aug(%r, o%d__[i%d__], B)" % (
                k, k, k, k, op, k, k)
            tv = self.visit(n.target.value)
        sub = {"A": tv, "B": val}
        if isinstance(n.target, ast.Subscript):
            sub["I"] = slice_expr(self.visit(n.target.slice))
        stmts = parse_stmts(src)

        class Sub(ast.NodeTransformer):
            def visit_Name(self, m):
                return sub.get(m.id, m) if m.id in ("A", "B", "I") else m
        return [ast.copy_location(Sub().visit(s), n) for s in stmts]

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name("Exception", ast.Load())
        return n

    def _native(self):
        return not self.fn or self.fn[-1]["native"]

    def visit_For(self, n):
        if self._native():
            self.generic_visit(n)
            n.iter = parse_expr("__vg__.native(A)", A=n.iter)
            return n
        it = self.visit(n.iter)
        pre = [ast.Assign([n.target], ast.Name("item__", ast.Load()))]
        return self._loop(n, n.body, n.orelse, pre, "__vg__.loop(IT, FN, NAMES)", it)

    def visit_While(self, n):
        if self._native():
            self.generic_visit(n)
            return n
        test = self.visit(n.test)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]), body=test)
        return self._loop(n, n.body, n.orelse, [], "__vg__.while_(IT, FN, NAMES)", lam)

    def _loop(self, n, body, orelse, pre, call, it):
        k = self.uid()
        names = bound(pre + body)
        self.fn[-1]["extra"] |= names
        self.inloop += 1
        new = []
        for s in pre + body:
            r = self.visit(s)
            new.extend(r if isinstance(r, list) else [r] if r is not None else [])
        self.inloop -= 1
        allnames = names | bound(new)
        self.fn[-1]["extra"] |= allnames
        names = sorted(allnames)
        fname = "body%d__" % k
        f = parse_stmts("def %s(item__):\n pass" % fname)[0]
        f.body = ([ast.Nonlocal(names)] if names else []) + new
        e = parse_expr(call, IT=it, FN=ast.Name(fname, ast.Load()),
                       NAMES=ast.Tuple([ast.Constant(x) for x in names], ast.Load()))
        out = [f, ast.Assign([ast.Name("r%d__" % k, ast.Store())], e)]
        if has_return(body):
            ret = "r%d__" % k if self.inloop else "r%d__.value" % k
            out += parse_stmts("if __vg__.is_ret(r%d__):\n return %s" % (k, ret))
        if orelse:
            st = parse_stmts("if not __vg__.is_brk(r%d__):\n pass" % k)[0]
            els = []
            for s in orelse:
                r = self.visit(s)
                els.extend(r if isinstance(r, list) else [r])
            st.body = els
            out.append(st)
        if self.inloop:
            self.fn[-1]["extra"].add("r%d__" % k)
        for s in out:
            ast.copy_location(s, n)
        return out

    def visit_If(self, n):
        said = not self._native() and not n.orelse and all(
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
            and isinstance(s.value.func, ast.Name) and s.value.func.id == "print"
            for s in n.body)
        self.generic_visit(n)
        if said:
            n.test = parse_expr("__vg__.aside(A, B)", A=n.test, B=ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                   defaults=[]),
                body=ast.Tuple([copy.deepcopy(s.value) for s in n.body], ast.Load())))
        return n

    def visit_Return(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        if self.inloop:
            n.value = parse_expr("__vg__.Ret(A)", A=n.value or ast.Constant(None))
        return n

    def visit_Continue(self, n):
        if self._native():
            return n
        return ast.copy_location(ast.Return(parse_expr("__vg__.CONT")), n)

    def visit_Break(self, n):
        if self._native():
            return n
        return ast.copy_location(ast.Return(parse_expr("__vg__.BRK")), n)


def starred(n):
    """[(is starred, value), ..] of a list or tuple display."""
    return ast.List([ast.Tuple([ast.Constant(isinstance(e, ast.Starred)),
                                e.value if isinstance(e, ast.Starred) else e], ast.Load())
                     for e in n.elts], ast.Load())


def slice_expr(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name("slice", ast.Load()),
                        [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([slice_expr(e) for e in s.elts], ast.Load())
    return s


def has_return(stmts):
    class F(ast.NodeVisitor):
        found = False

        def visit_Return(self, n):
            self.found = True

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_FunctionDef
    f = F()
    for s in stmts:
        f.visit(s)
    return f.found


def strip_docs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return tree


# ------------------------------------------------------------------ run time
def _ints(a, b):
    return isinstance(a, int) and isinstance(b, int)


TEXT = [lambda s: s]       # what a formatted string becomes


class Runtime:
    CONT, BRK, Ret = Lp.CONT, Lp.BRK, Lp.Ret
    loop = staticmethod(Lp.loop)
    while_ = staticmethod(Lp.while_)
    comp = staticmethod(Lp.comp)
    setattr = staticmethod(S.sym_setattr)
    aside = staticmethod(V.aside)
    refuse = staticmethod(V.unsupported)

    @staticmethod
    def is_ret(r):
        return isinstance(r, Lp.Ret)

    @staticmethod
    def is_brk(r):
        return r is Lp.BRK or isinstance(r, Lp.Ret)

    @staticmethod
    def lit(s):
        f = Fraction(s)
        return Num(T.num(f))

    @staticmethod
    def text(s):
        return TEXT[0](s)

    @staticmethod
    def div(a, b):
        if _ints(a, b):
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return Num(T.num(Fraction(a, b)))
        return a / b

    @staticmethod
    def pow(a, b):
        if _ints(a, b) and b < 0:
            return Num(T.num(Fraction(a) ** b))
        return a ** b

    @staticmethod
    def aug(op, a, b):
        import operator as o
        if op == "Div":
            if isinstance(a, Arr):
                return a.__itruediv__(b)
            return Runtime.div(a, b)
        if op == "Pow":
            if isinstance(a, Arr):
                return a.__ipow__(b)
            return Runtime.pow(a, b)
        return {"Add": o.iadd, "Sub": o.isub, "Mult": o.imul, "FloorDiv": o.ifloordiv,
                "Mod": o.imod, "BitAnd": o.iand, "BitOr": o.ior, "MatMult": o.imatmul,
                "BitXor": o.ixor, "LShift": o.ilshift, "RShift": o.irshift}[op](a, b)

    @staticmethod
    def shape(x):
        if isinstance(x, Arr):
            return N.shape_tuple(x)
        return x.shape

    @staticmethod
    def mklist(x):
        return SList([x])

    @staticmethod
    def mkstar(xs, tup=False):
        r = SList()
        for star, x in xs:
            if star:
                r.extend(x)
            else:
                r.append(x)
        return tuple(r.items()) if tup and r.concrete else r

    @staticmethod
    def mkdict(x):
        return SDict(x.items() if hasattr(x, "items") and not isinstance(x, dict) else x)

    @staticmethod
    def flat(x):
        r = SList()
        for y in x:
            r.extend(y)
        return r

    @staticmethod
    def native(x):
        return S.siter(x)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if c is float:
            if isinstance(x, float) or (isinstance(x, Num) and not T.isint(x.p)):
                return True
            if isinstance(x, Num) and getattr(x, "p").const() is not None and \
                    x.p.const().denominator == 1:
                return True
        elif c is int:
            if isinstance(x, int) or (isinstance(x, Num) and T.isint(x.p) and x.p.const() is None):
                return True
        elif c is list:
            if isinstance(x, (list, SList)):
                return True
        elif c is dict:
            if isinstance(x, dict):
                return True
        elif c is NDARRAY:
            if isinstance(x, Arr):
                return True
        elif c in (SCALAR_T, INTEGER_T, FLOATING_T, NUMBER_T):
            if isinstance(x, Num):
                return True
        elif isinstance(c, tuple):
            if b_isinstance(x, c):
                return True
        elif isinstance(x, c):
            return True
    return False


class _T:
    def __init__(self, n):
        self.__name__ = n


NDARRAY, SCALAR_T, INTEGER_T, FLOATING_T, NUMBER_T = [
    _T(n) for n in ("ndarray", "generic", "integer", "floating", "number")]


def b_len(x):
    if isinstance(x, Arr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return V.out_int(x.shape[0])
    if isinstance(x, SList):
        return V.out_int(x.count())
    if isinstance(x, S.SIter):
        return V.out_int(x.count)
    return len(x)


class MetaNum(type):
    pass


def b_float(x=0):
    if isinstance(x, str):
        return Num(T.num(Fraction(x))) if x.lower() not in ("inf", "-inf", "nan") else float(x)
    if isinstance(x, Cond):
        return Num(x.b)
    if isinstance(x, Arr):
        return Num(poly(x))
    if isinstance(x, (int, bool)):
        return Num(T.num(int(x)))
    return x


def b_int(x=0, *a):
    if isinstance(x, str):
        return int(x, *a)
    if isinstance(x, (int, bool)):
        return int(x)
    return V.out_int(V.trunc(poly(x)))


def b_round(x, n=None):
    if isinstance(x, (Num, Arr)):
        if n is not None:
            unsupported("round to digits")
        p = poly(x)
        if T.isint(p):
            return V.out_int(p)
        # ties go to the even neighbour
        f = T.mkfn("floor", (p + Fraction(1, 2),))
        tie = T.mul(T.bracket("eq", f - p - Fraction(1, 2)), T.mkfn("imod", (f, T.num(2))))
        return V.out_int(f - tie)
    return round(x, n) if n is not None else round(x)


def b_max(*a, **k):
    return _extreme("max", max, a, k)


def b_min(*a, **k):
    return _extreme("min", min, a, k)


def _extreme(op, f, a, k):
    xs = list(S.siter(a[0])) if len(a) == 1 else list(a)
    if k:
        return f(xs, **k)
    if any(isinstance(x, (Num, Arr)) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = V.ew(op, r, x)
        return r
    return f(xs)


def b_sum(x, start=0):
    it = S.siter(x)
    if isinstance(it, S.SIter):
        v = N.nsum(S.to_array(it))
        return v + start
    r = start
    for y in it:
        r = r + y
    return r


def b_sorted(x, key=None, reverse=False):
    if isinstance(x, Arr):
        if key is None and not reverse and V.increasing(x):
            return S.aslist(x.copy())
        unsupported("sorting")
    if isinstance(x, SList) and not x.concrete:
        return S.aslist(N.sort(S.to_array(x)))
    r = sorted(list(x), key=key, reverse=reverse)
    return SList([r])


def b_list(x=()):
    return S.aslist(S.siter(x)).copy() if not isinstance(x, dict) else SList([list(x)])


def b_tuple(x=()):
    return tuple(S.siter(x))


def b_map(f, *xs):
    if len(xs) == 1:
        return Lp.comp(xs[0], f)
    return Lp.comp(S.szip(*xs), lambda t: f(*t))


def b_any(x):
    for y in S.siter(x):
        if y:
            return True
    return False


def b_all(x):
    for y in S.siter(x):
        if not y:
            return False
    return True


def b_dict(*a, **k):
    return SDict(*a, **k)


def b_pow(a, b):
    return Runtime.pow(a, b)


def b_hasattr(o, n):
    return hasattr(o, n)


PRINTED = []


def b_print(*a, **k):
    PRINTED.append(a)


NP = {k: v for k, v in vars(N).items() if not k.startswith("_")}


def _np():
    from .rng import default_rng, SeedSequence, random_ns
    d = {n: NP[n] for n in (
        "asarray array full zeros ones empty zeros_like ones_like empty_like full_like eye "
        "identity diag outer inner vdot dot matmul trace transpose tile repeat concatenate append "
        "stack vstack hstack column_stack atleast_1d atleast_2d roll diff flip arange linspace "
        "take split unique sort where clip square sign ceil allclose isclose isfinite isnan mean prod "
        "ndim copy einsum tril triu fill_diagonal broadcast_to moveaxis tensordot var std cumsum "
        "hypot trunc").split()}
    f1 = N.f1
    d.update(sum=N.nsum, any=N.nany, all=N.nall, shape=N.nshape, asanyarray=N.asarray,
             ascontiguousarray=N.asarray, asfortranarray=N.asarray, row_stack=N.vstack,
             size=lambda x: N.arr(x).size, ravel=lambda x: N.arr(x).ravel(),
             reshape=lambda x, s, order="C": N.arr(x).reshape(s if not V.is_scalar(s) else (s,),
                                                               order=order),
             squeeze=lambda x, axis=None: N.arr(x).squeeze(axis),
             diagonal=lambda x: N.arr(x).diagonal(), swapaxes=lambda x, i, j: N.arr(x).swapaxes(i, j),
             expand_dims=lambda x, axis: N.arr(x)[tuple([slice(None)] * int(axis) + [None])],
             sqrt=f1("sqrt"), log=f1("log"), exp=f1("exp"), sin=f1("sin"), cos=f1("cos"),
             tan=f1("tan"), tanh=f1("tanh"), floor=f1("floor"), abs=f1("abs"), absolute=f1("abs"),
             fabs=f1("abs"), log1p=lambda x: f1("log")(x + 1),
             maximum=lambda a, b: V.ew("max", a, b), minimum=lambda a, b: V.ew("min", a, b),
             add=lambda a, b: V.ew("add", a, b), subtract=lambda a, b: V.ew("sub", a, b),
             multiply=lambda a, b: V.ew("mul", a, b), divide=lambda a, b: V.ew("div", a, b),
             true_divide=lambda a, b: V.ew("div", a, b), power=lambda a, b: V.ew("pow", a, b),
             negative=lambda a: -a if isinstance(a, V.ArrayLike) else -N.arr(a),
             mod=lambda a, b: V.ew("mod", a, b), remainder=lambda a, b: V.ew("mod", a, b),
             floor_divide=lambda a, b: V.ew("fdiv", a, b),
             max=lambda a, **k: N.arr(a).max(**k), min=lambda a, **k: N.arr(a).min(**k),
             amax=lambda a, **k: N.arr(a).max(**k), amin=lambda a, **k: N.arr(a).min(**k),
             array_equal=N.array_equal,
             isscalar=lambda x: V.is_scalar(x) and not isinstance(x, Arr),
             newaxis=None, pi=Num(T.P(T.sym("pi"))), e=Num(T.P(T.sym("e"))), inf=float("inf"),
             ndarray=NDARRAY, float64=float, float32=V.NARROW, float16=V.NARROW, single=V.NARROW, half=V.NARROW, int64=int, int32=int, intp=int,
             bool_=bool, integer=INTEGER_T, floating=FLOATING_T, number=NUMBER_T,
             generic=SCALAR_T,
             double=float, trapezoid=N.trapezoid, trapz=N.trapezoid,
             finfo=lambda t: N.Namespace("finfo", dict(eps=Num(T.num(Fraction(1, 2**52))))),
             errstate=NoContext, printoptions=NoContext,
             add_reduce=None)
    for u in ("add", "subtract", "multiply", "divide", "maximum", "minimum"):
        d[u].outer = lambda a, b, f=d[u]: f(N.arr(a).ravel()[:, None], N.arr(b).ravel()[None, :])
    lin = dict(eigvals=N.eigvals, eigvalsh=N.eigvals, solve=L.solve, inv=lambda a: L.inverse(N.arr(a)),
               cholesky=N.npcholesky, norm=N.norm, det=N.det, slogdet=N.slogdet,
               LinAlgError=L.LinAlgError, multi_dot=N.multi_dot)
    d["linalg"] = N.Namespace("numpy.linalg", lin)
    d["random"] = random_ns()
    return N.Namespace("numpy", d)


class NoContext:
    """np.errstate, np.printoptions: no effect on values."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


CONCRETE = {float: b_float, int: b_int}


class World:
    """The modules of /repo, freshly loaded; replace: {"module:name": value} substituted
    before importers see the module (contracts of callees)."""

    def __init__(self, replace=None, ext=None, watch=None):
        self.watch = watch
        self.mods, self.replace, self.used = {}, dict(replace or {}), set()
        self.ext = dict(ext or {})
        self.np = _np()
        self.files = []

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            m = N.Namespace(name, {})
            self.mods[name] = m
            return m
        path += ".py"
        if not os.path.exists(path):
            raise ImportError("No module named %s" % name)
        with open(path) as f:
            src = f.read()
        self.files.append(os.path.relpath(path, REPO))
        tree = strip_docs(ast.parse(src))
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        ns = {"__name__": name, "__builtins__": self.builtins(), "__vg__": Runtime,
              "__file__": path}
        m = Module(ns)
        self.mods[name] = m
        exec(code, ns)
        for key, v in self.replace.items():
            mod, _, what = key.partition(":")
            if mod == name:
                if "." in what:
                    cls, meth = what.split(".")
                    if cls not in ns:
                        unsupported("%s has no %s" % (mod, cls))
                    setattr(ns[cls], meth, v)
                else:
                    if what not in ns:
                        unsupported("%s has no %s" % (mod, what))
                    ns[what] = v(ns[what]) if getattr(v, "wraps", False) else v
                self.used.add(key)
        if self.watch is not None:
            self.watch.install(self, name, ns)
        return m

    def get(self, mod, what):
        return self.module(mod).ns[what]

    def external(self, name):
        if name in self.ext:
            return self.ext[name]
        if name == "numpy":
            return self.np
        if name == "numpy.linalg":
            return self.np.linalg
        if name == "numpy.random":
            return self.np.random
        if name == "numba":
            return N.Namespace("numba", dict(njit=njit, jit=njit, prange=S.srange))
        if name == "scipy":
            return N.Namespace("scipy", {})
        if name == "scipy.integrate":
            return N.Namespace(name, dict(trapezoid=N.trapezoid, trapz=N.trapezoid))
        if name == "scipy.linalg":
            return N.Namespace(name, dict(cholesky=N.spcholesky, LinAlgError=L.LinAlgError,
                                          solve=L.solve, inv=lambda a: L.inverse(N.arr(a))))
        if name == "scipy.interpolate":
            from .rng import CubicSpline
            return N.Namespace(name, dict(CubicSpline=CubicSpline))
        if name == "copy":
            return N.Namespace(name, dict(copy=_copy, deepcopy=_deepcopy))
        if name == "math":
            d = {k: getattr(self.np, k) for k in ("sqrt", "log", "exp", "sin", "cos", "tanh", "pi")}
            d.update(floor=lambda x: b_int(self.np.floor(x)), fsum=b_sum,
                     ceil=lambda x: b_int(self.np.ceil(x)), fabs=self.np.abs, inf=float("inf"))
            return N.Namespace(name, d)
        if name in ("json", "sys", "time", "pathlib", "typing", "os", "functools", "itertools",
                    "collections", "collections.abc", "abc", "dataclasses", "warnings", "operator",
                    "logging", "enum", "types", "__future__", "io", "textwrap", "string",
                    "argparse", "re", "contextlib", "numbers", "traceback", "csv"):
            __import__(name)
            return sys.modules[name]
        if name in ("h5py", "pandas"):
            return N.Namespace(name, {})
        if name == "random":
            from .rng import py_random
            return py_random()
        unsupported("module %s" % name)

    def builtins(self):
        b = dict(vars(builtins))

        def imp(name, g=None, l=None, fromlist=(), level=0):
            if level:
                base = (g or {}).get("__name__", "").split(".")[:-level]
                name = ".".join(base + ([name] if name else []))
            if name == "src" or name.startswith("src.") or name == "vgpa_main":
                m = self.module(name)
                if fromlist:
                    for f in fromlist:
                        if not hasattr(m, f):
                            try:
                                m.__dict__[f] = self.module(name + "." + f)
                            except ImportError:
                                pass
                    return m
                return self.module(name.split(".")[0])
            m = self.external(name)
            if fromlist or "." not in name:
                return m
            root = self.external(name.split(".")[0])
            try:
                setattr(root, name.split(".")[1], m)
            except Exception:
                pass
            return root
        b.update(__import__=imp, isinstance=b_isinstance, len=b_len, range=S.srange,
                 enumerate=S.senumerate, zip=S.szip, reversed=S.sreversed, max=b_max, min=b_min,
                 sum=b_sum, sorted=b_sorted, tuple=TupleT, map=b_map, any=b_any, all=b_all,
                 print=b_print, round=b_round, pow=b_pow,
                 float=FloatT, int=IntT, list=ListT, dict=DictT)
        b.update(self.ext.get("builtins", {}))
        return b


class _Callable(type):
    def __call__(cls, *a, **k):
        return cls.fn(*a, **k)

    def __instancecheck__(cls, x):
        return b_isinstance(x, cls.base)


class FloatT(metaclass=_Callable):
    fn, base = staticmethod(b_float), float


class IntT(metaclass=_Callable):
    fn, base = staticmethod(b_int), int


class ListT(metaclass=_Callable):
    fn, base = staticmethod(b_list), list


class DictT(metaclass=_Callable):
    fn, base = staticmethod(b_dict), dict


class TupleT(metaclass=_Callable):
    fn, base = staticmethod(b_tuple), tuple


for _c, _n in ((FloatT, "float"), (IntT, "int"), (ListT, "list"), (DictT, "dict"),
               (TupleT, "tuple")):
    _c.__name__ = _n


class Module:
    def __init__(self, ns):
        self.ns = ns

    def __getattr__(self, n):
        try:
            return self.__dict__["ns"][n]
        except KeyError:
            raise AttributeError(n)


def njit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


def _copy(x):
    return x.copy() if hasattr(x, "copy") else x


def _deepcopy(x, *a):
    if isinstance(x, (Arr, SList, Num)):
        return x.copy()
    if isinstance(x, dict):
        return SDict({k: _deepcopy(v) for k, v in x.items()})
    if isinstance(x, tuple):
        return tuple(_deepcopy(v) for v in x)
    if isinstance(x, (int, str, float, type(None))):
        return x
    unsupported("deepcopy of %s" % type(x).__name__)
