#!/usr/bin/env python3
"""Compare the engine's reading of numpy and Python with numpy and Python themselves.

Every snippet below is executed symbolically (arrays of symbolic extent) by vgpav/eng; the
resulting terms are evaluated at random concrete values and compared with what the snippet
gives when it is run as it stands.  Run with /opt/venv/bin/python; nothing in the checks
depends on it.
"""
import math
import os
import sys
import tempfile
import types
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
tmp = tempfile.mkdtemp(prefix="fidelity")
os.makedirs(tmp + "/src")
os.environ["VGPAV_REPO"] = tmp

import numpy as np                                   # noqa: E402
from vgpav.ctr import base as B                      # noqa: E402
from vgpav.eng import ctx as C, load, loops as Lp, terms as T, val as V   # noqa: E402
from vgpav.eng.seq import SList                      # noqa: E402

SNIPPETS = open(os.path.join(HERE, "tools", "snippets.py")).read()


class Cannot(Exception):
    pass


class Ev:
    """Numeric value of a term."""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def poly(self, p, mp=None):
        mp = mp or {}
        s = 0
        for m, c in p.t.items():
            x = c
            for a, e in m.f:
                v = self.atom(a, mp)
                if e < 0:
                    x = (Fraction(x) if isinstance(v, (int, Fraction)) else float(x)) / v ** (-e)
                else:
                    x = x * v ** e if not isinstance(v, float) else float(x) * v ** e
                if x == 0 and not isinstance(v, float):
                    x = 0
                    break
            s = s + x
        return s

    def atom(self, a, mp):
        if a in mp:
            return mp[a]
        if a.kind == "sym":
            if a.a[0] == "pi":
                return math.pi
            if a.a[0] == "e":
                return math.e
            if a.a[0] in self.env:
                return self.env[a.a[0]]
            raise Cannot("symbol %s" % a.a[0])
        if a.kind == "app":
            idx = tuple(int(self.poly(i, mp)) for i in a.a[1])
            name = a.a[0].split("@")[0]
            if a.a[0] in Lp.DEFS:
                key = (a.a[0], idx)
                if key not in self.memo:
                    self.memo[key] = self.poly(Lp.DEFS[a.a[0]](tuple(T.num(i) for i in idx)))
                return self.memo[key]
            if name not in self.env:
                raise Cannot("family %s" % a.a[0])
            arr = self.env[name]
            if any(i < 0 or i >= n for i, n in zip(idx, arr.shape)):
                return 0        # outside: must be multiplied by a zero
            v = arr[idx]
            return int(v) if arr.dtype.kind in "ib" else float(v)
        if a.kind == "br":
            v = self.poly(a.a[1], mp)
            return int(v <= 0) if a.a[0] == "le" else int(v == 0) if a.a[0] == "eq" else int(v < 0)
        if a.kind == "fn":
            x = [self.poly(q, mp) for q in a.a[1]]
            n = a.a[0]
            f = {"sqrt": lambda v: math.sqrt(v), "exp": math.exp, "log": math.log, "abs": abs,
                 "floor": lambda v: math.floor(v), "imod": lambda u, v: u % v,
                 "idiv": lambda u, v: u // v, "max": max, "min": min, "sin": math.sin,
                 "cos": math.cos, "tanh": math.tanh, "tan": math.tan, "pow": pow,
                 "fmod": lambda u, v: u % v}.get(n)
            if f is None:
                raise Cannot("function %s" % n)
            return f(*x)
        if a.kind == "sum":
            bs, f = T.open_sum(a)
            tot = 0

            def rec(i, m):
                nonlocal tot
                if i == len(bs):
                    x = 1
                    for b, e in f.items():
                        v = self.atom(b, m)
                        if v == 0 and e > 0:
                            return
                        x = x * v ** e if e > 0 else x / v ** (-e)
                    tot = tot + x
                    return
                n = self.poly(bs[i][1], m)
                rng = range(int(n)) if n >= 0 else range(int(n), 0)
                for k in rng:
                    rec(i + 1, {**m, bs[i][0]: k})
                if n < 0:
                    raise Cannot("negative extent")
            rec(0, dict(mp))
            return tot
        if a.kind == "fun":
            name, dims, ss, params, idx = T.fun_open(a)
            dims = [int(self.poly(d, mp)) for d in dims]
            if len(ss) == 2 and len(dims) in (1, 2):
                D = dims[0]
                mats = [np.array([[float(self.poly(p, {**mp, ss[0]: i, ss[1]: j}))
                                   for j in range(D)] for i in range(D)]) for p in params]
                ix = tuple(int(self.poly(i, mp)) for i in idx)
                if name == "inv":
                    return float(np.linalg.inv(mats[0])[ix])
                if name == "logdet":
                    return float(np.linalg.slogdet(mats[0])[1])
                if name in ("chol", "cholesky"):
                    L = np.linalg.cholesky(mats[0])
                    return float(L[ix])
            raise Cannot("functional %s/%d" % (name, len(ss)))
        raise Cannot(a.kind)


def concrete(ev, x):
    if isinstance(x, V.Arr):
        sh = tuple(int(ev.poly(d)) for d in x.shape)
        out = np.empty(sh)
        for i in np.ndindex(*sh):
            out[i] = ev.poly(x.get(tuple(T.num(k) for k in i)))
        return out
    if isinstance(x, SList):
        a = V.as_arr(x) if not x.concrete else None
        return concrete(ev, a) if a is not None else [concrete(ev, y) for y in x.items()]
    if isinstance(x, (tuple, list)):
        return [concrete(ev, y) for y in x]
    if isinstance(x, (str, type(None))):
        return x
    return float(ev.poly(V.poly(x)))


def plain(x):
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.astype(float)
    if isinstance(x, (str, type(None))):
        return x
    return float(x)


def equal(g, w):
    if isinstance(w, list) and isinstance(g, np.ndarray):
        try:
            w = np.asarray(w, dtype=float)
        except Exception:
            return False
    if isinstance(g, list) and isinstance(w, np.ndarray):
        g = np.asarray(g, dtype=float)
    if isinstance(g, np.ndarray) or isinstance(w, np.ndarray):
        return np.shape(g) == np.shape(w) and np.allclose(g, w, 1e-8, 1e-9, equal_nan=True)
    if isinstance(g, list) or isinstance(w, list):
        return isinstance(g, list) and isinstance(w, list) and len(g) == len(w) and \
            all(map(equal, g, w))
    if isinstance(w, str) or w is None or isinstance(g, str) or g is None:
        return g == w
    return bool(np.isclose(g, w, 1e-8, 1e-9, equal_nan=True))


SHAPES = dict(v="N", w="N", u="M", a="ND", b="ND", c="DD", p="DD", q="NDD", z="N", e="DE")


def numbers(rng, n):
    N, D, M, E = [(4, 3, 5, 2), (2, 1, 3, 2), (6, 2, 4, 4), (3, 2, 3, 2)][n % 4]
    dim = dict(N=N, D=D, M=M, E=E)
    env = {"n": N, "d": D, "m": M, "ee": E, "k": int(rng.integers(0, N)), "i": int(rng.integers(-7, 8)),
           "j": int(rng.integers(1, 6)), "x": float(np.round(rng.normal() * 2, 3)),
           "y": float(np.round(np.exp(rng.normal()), 3)), "t": float(np.round(rng.uniform(0, 1), 3))}
    for nm, s in SHAPES.items():
        sh = tuple(dim[k] for k in s)
        env[nm] = np.round(rng.normal(size=sh) * 2, 3)
        if nm == "p":
            g = rng.normal(size=sh)
            env[nm] = g @ g.T + np.eye(D)
        if nm == "z":
            env[nm] = rng.integers(-5, 9, size=sh)
    return env, dim


def main():
    with open(tmp + "/src/snip.py", "w") as fh:
        fh.write(SNIPPETS)
    real = types.ModuleType("snip")
    exec(compile(SNIPPETS, "snip", "exec"), real.__dict__)
    names = [n for n, f in vars(real).items() if isinstance(f, types.FunctionType)
             and n.startswith("s_") and (len(sys.argv) < 2 or n in sys.argv[1:])]
    res = dict(same=0, wrong=0, skipped=0)
    job = B.Job("fidelity", "quick") if "Job" in vars(B) else None
    for name in names:
        f = getattr(real, name)
        args = f.__code__.co_varnames[:f.__code__.co_argcount]
        ends = []
        rows = {}

        def record(kind, v):
            w = V.PATHS[-1].w
            if not C.consistent():
                return
            for n in range(8):
                rng = np.random.default_rng([n, sum(map(ord, name))])
                env, dim = numbers(rng, n)
                ev = Ev(dict(env, **dim))
                try:
                    if ev.poly(w) == 0:
                        continue
                    r = (kind, concrete(ev, v) if kind == "return" else v)
                except Cannot as e:
                    r = ("cannot", str(e))
                rows.setdefault(n, []).append(r)
        try:
            with job.scope(name) as s:
                N, D, M, E = s.int("N", 2), s.int("D", 1), s.int("M", 2), s.int("E", 2)
                dims = dict(N=N, D=D, M=M, E=E)
                val = dict(n=N, d=D, m=M, ee=E, x=s.real("x"), y=s.pos("y"), t=s.real("t"))
                kk = s.int("k", 0)
                C.learn([("lt", V.poly(kk) - V.poly(N))])
                ii, jj = s.int("i"), s.int("j", 1)
                val.update(k=kk, i=ii, j=jj)
                for nm, sh in SHAPES.items():
                    dd = [dims[c] for c in sh]
                    val[nm] = s.pd(nm, *dd) if nm == "p" else s.arr(
                        nm, *dd, kind="i" if nm == "z" else "f")
                w = s.world(watch=False)
                g = w.get("src.snip", name)
                keep = {nm: (val[nm], val[nm].snap(), val[nm].shape) for nm in args
                        if isinstance(val[nm], V.Arr)}
                V.explore(lambda: g(*[val[a] for a in args]), record)
        except Exception as e:
            print("%-22s SKIP %s: %s" % (name, type(e).__name__, str(e)[:110]))
            res["skipped"] += 1
            continue
        bad = [o for n, o in job.obs.items() if not o["ok"] and o["why"] != "none" and n.startswith(name)]
        if bad and not rows:
            print("%-22s SKIP %s %s" % (name, bad[0]["why"][:60], str(bad[0]["detail"])[-150:].replace("\n", " ")))
            res["skipped"] += 1
            continue
        if not rows:
            why = [o["detail"] or o["why"] for n, o in job.obs.items() if not o["ok"] and name in n]
            print("%-22s SKIP %s" % (name, str([str(w).strip().split("\n")[-1] for w in why])[:160].replace("\n", " ")))
            res["skipped"] += 1
            continue
        for n in range(8):
            rng = np.random.default_rng([n, sum(map(ord, name))])
            env, dim = numbers(rng, n)
            got = rows.get(n, [])
            try:
                with np.errstate(all="ignore"):
                    want = ("return", plain(f(*[env[a] for a in args])))
            except Exception as e:
                want = ("raise", e)
            if any(r[0] == "cannot" for r in got):
                print("%-22s CANNOT %s" % (name, got[0][1]))
                res["skipped"] += 1
                break
            if any(r[0] == "raise" and isinstance(r[1], (V.NotUnderstood, T.Unsupported)) for r in got):
                print("%-22s SKIP %s" % (name, str(got[0][1])[:120]))
                res["skipped"] += 1
                break
            ok = len(got) == 1 and got[0][0] == want[0] and (
                want[0] == "raise" or equal(got[0][1], want[1]))
            if not ok:
                print("%-22s WRONG case %d\n   engine %s\n   python %s" % (
                    name, n, str(got)[:400].replace("\n", " "), str(want)[:400].replace("\n", " ")))
                res["wrong"] += 1
                break
        else:
            res["same"] += 1
    print(res)
    return 1 if res["wrong"] else 0


if __name__ == "__main__":
    rc = main()
    import shutil
    shutil.rmtree(tmp)
    sys.exit(rc)
