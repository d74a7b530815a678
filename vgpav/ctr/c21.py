"""Saving and loading: every entry, of any rank and size, comes back as it was."""
import itertools
from .base import *
from .files import Disk, H5, Data
from .vgp import freeze, same
from . import names as names_

SIM = "src.var_bayes.simulation"


def contracts(J):
    J.under(SIM + ".Simulation.save", SIM + ".load", SIM + ".Simulation.__init__")
    J.trust("h5py keeps the datasets of a file as created (shape, type, values); mode 'w' "
            "starts an empty file")
    for single in (True, False):
        for before in ("no file", "an earlier file"):
            with J.scope("save and load[%s, %s]" % ("scalar" if single else "vector", before)) as s:
                trip(s, single, before != "no file")
    with J.scope("save without results") as s:
        nothing(s)
    with J.scope("load without a name") as s:
        noname(s)
    with J.scope("file name") as s:
        if not every_name(s):
            names(s, "thorough" if J.tier == "thorough" else "quick")


def world(s, disk):
    return s.world(ext=dict(disk.ext(), h5py=H5(disk).ext()))


def results(s, single, tag=""):
    """Results as a run leaves them, and entries of other ranks and types."""
    N, D, K = s.int("N" + tag, 2), s.int("D" + tag, 1), s.int("K" + tag, 0)
    vec, mat = ((N,), (N,)) if single else ((N, D), (N, D, D))
    a = lambda n, *sh, **k: s.arr(n + tag, *sh, **k)
    out = {"at": a("at", *mat), "bt": a("bt", *vec), "fx": s.real("fx" + tag),
           "m0": s.real("m0" + tag) if single else a("m0", D),
           "s0": 0.2 if single else a("s0", D, D), "mt": a("mt", *vec), "st": a("st", *mat),
           "Efx": a("Efx", *vec), "Edf": a("Edf", *mat), "lamt": a("lamt", *vec),
           "psit": a("psit", *mat), "zero rank": from_fn((), lambda i: poly(s.real("zr" + tag))),
           "one": a("one", 1), "four": a("four", N, D, K, 2), "whole": a("whole", K, kind="i"),
           "int": 7, "nothing": a("nothing", 0), "no rows": a("rows", 0, D)}
    return out


def trip(s, single, earlier):
    disk = Disk()
    w = world(s, disk)
    cls, load_ = w.get(SIM, "Simulation"), w.get(SIM, "load")
    out = results(s, single)
    arrs = [x for x in out.values() if isinstance(x, Arr)]
    want = {k: freeze(x) for k, x in out.items()}

    def run():
        disk.files = {}
        if earlier:
            old = cls("my run")
            old.output.update(results(s, not single, "'"))
            old.output["only before"] = s.arr("ob", 3)
            old.save()
        sim = cls("my run")
        sim.output.update(out)
        sim.save()
        files = dict(disk.files)
        got = load_("my_run.h5")
        import pathlib
        return sim, files, got, load_(pathlib.Path("my_run.h5")), load_("my_run.h5")

    def post(v):
        sim, files, *loads = v
        s.ob("exactly the named file is written", list(files) == ["my_run.h5"] and
             isinstance(files["my_run.h5"], Data), str(list(files)))
        for got in loads:
            ok = sorted(got) == sorted(want)
            s.ob("entries", ok, "%s instead of %s" % (sorted(got), sorted(want)))
            if not ok:
                continue
            for k, f in want.items():
                g = got[k]
                sh = f[1] if f[0] == "arr" and f[1] else (ONE,)
                kind = f[3] if f[0] == "arr" else "i" if k == "int" else "f"
                get = (lambda i, f=f: f[2](())) if f[0] == "arr" and not f[1] else f[2] \
                    if f[0] == "arr" else (lambda i, f=f: f[1])
                s.ob("%s is an array" % k, isinstance(g, Arr), type(g).__name__)
                s.arr_eq("%s unchanged" % k, g, sh, get)
                s.ob("type of %s" % k, isinstance(g, Arr) and g.kind == kind,
                     "%s, not %s" % (getattr(g, "kind", None), kind))
        for k, f in want.items():
            x = sim.output.get(k)
            now = None if x is None else freeze(V.as_arr(x))
            was = f if f[0] == "arr" and f[1] else ("arr", (ONE,), (
                lambda i, f=f: f[2](()) if f[0] == "arr" else f[1]), "f")
            s.ob("results keep their values", now is not None and (
                same(now, was) or same(now, f)), "%s changed" % k)
    s.explore(run, post)


def nothing(s):
    disk = Disk()
    w = world(s, disk)
    cls = w.get(SIM, "Simulation")

    def run():
        disk.files, disk.log = {}, []
        cls("my run").save()
        a = dict(disk.files), list(disk.log)
        disk.files, disk.log = {"my_run.h5": Data()}, []
        old = disk.files["my_run.h5"]
        old.sets["x"] = s.arr("x", 2)
        cls("my run").save()
        return a, disk.files.get("my_run.h5") is old and list(old.sets) == ["x"] and len(disk.files) == 1

    def post(v):
        (files, log), kept = v
        s.ob("nothing is written", not files and not [x for x in log if x[2] != "r"], str(log))
        s.ob("an earlier file stays as it was", kept)
    s.explore(run, post)


def noname(s):
    disk = Disk({"None": Data(), ".": Data(), "": Data()})
    w = world(s, disk)
    f = w.get(SIM, "load")
    for what, call in (("no argument", lambda: f()), ("None", lambda: f(None))):
        try:
            r = call()
            s.ob("%s is rejected" % what, False, "returned %s" % (r,))
        except Exception:
            s.ob("%s is rejected" % what, True)


LETTERS = ("a", "B", " ", "_", ".", "\t", "-", "7")


def every_name(s):
    """The name of the file for an arbitrary name; False if the code is not understood."""
    disk = Disk()
    w = world(s, disk)
    cls = w.get(SIM, "Simulation")
    a, got = s.arr("x", 2), None
    load.TEXT[0] = names_.wrap
    try:
        for once in (True, False):
            disk.files = {}
            sim = cls(names_.any_name())
            sim.output["x"] = a
            sim.save()
            if not once:
                sim.save()
            got = list(disk.files)
            ok = len(got) == 1 and names_.is_file(got[0])
            if not ok:
                return False
    except (names_.Unknown, Exception):
        return False
    finally:
        load.TEXT[0] = lambda t: t
    s.ob("every name is trimmed, its spaces replaced, .h5 appended", True)
    return True


def names(s, tier):
    """All names of up to three (four) characters from representatives of the kinds of
    character: bounded."""
    n = 4 if tier == "thorough" else 3
    s.job.bounded.append("file names: every simulation name of up to %d characters over %s, and "
                         "some longer ones" % (n, list(LETTERS)))
    disk = Disk()
    w = world(s, disk)
    cls = w.get(SIM, "Simulation")
    a = s.arr("x", 2)
    why = ""
    more = ["  two  words  ", "a b c d e", "Sim.h5", "v1.2.3 final", "\u00fcn\u00ef code", " .x. y ", "x\n",
            "Double Well 0.5", "tab\tin side", "n" * 300, "long name " * 40]
    more += ["a%sb" % c for t in names_.TOKENS for c, _ in t.chars if c not in "/\0"]
    for k in range(1, n + 1):
        more += ["".join(t) for t in itertools.product(LETTERS, repeat=k)]
    for name in more:
        disk.files = {}
        sim = cls(name)
        sim.output["x"] = a
        try:
            sim.save()
        except Exception as e:
            why = "%r: %s: %s" % (name, type(e).__name__, e)
            break
        want = name.strip().replace(" ", "_") + ".h5"
        if list(disk.files) != [want]:
            why = "%r is saved as %s, not %r" % (name, list(disk.files), want)
            break
    s.ob("trimmed, spaces replaced, .h5 appended (bounded)", not why, why)
