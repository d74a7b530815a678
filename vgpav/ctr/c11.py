"""Free energy: sum of the parts at the moments of the vector, independent of the history."""
from .base import *
from .vgp import Parts, freeze, same

CLS = "src.var_bayes.variational.VarGP"


def contracts(J):
    J.under(CLS + ".__init__", CLS + ".free_energy", CLS + ".arg_out")
    J.assume("an arbitrary history is represented by an arbitrary published state with the "
             "initial moments kept and an unchanged configuration (both checked to be "
             "re-established), and by explicit earlier evaluations")
    for single in (True, False):
        for hist in ("new", "any state", "other vector evaluated", "same vector evaluated",
                     "same, then other vector evaluated"):
            with J.scope("VarGP.free_energy[%s, %s]" % ("scalar" if single else "vector",
                                                        hist)) as s:
                one(s, single, hist)


def before(parts, vg, hist, x, x1):
    if hist == "any state":
        parts.havoc(vg)
    if hist in ("same vector evaluated", "same, then other vector evaluated"):
        vg.free_energy(x)
        vg.gradient(x)
    if hist in ("other vector evaluated", "same, then other vector evaluated"):
        vg.free_energy(x1)
        vg.gradient(x1)


def one(s, single, hist):
    w = s.world()
    parts = Parts(s, single)
    x, A, b = parts.x("x")
    x1, _, _ = parts.x("x1")
    keep = s.unchanged("vector, initial moments and data unchanged", x, x1, parts.obs_y,
                       parts.obs_t, *([] if single else [parts.m0, parts.s0, parts.model.sigma]))

    def run():
        vg = parts.make(w)
        before(parts, vg, hist, x, x1)
        c = parts.config(vg)
        r = vg.free_energy(x)
        return vg, c, r

    def post(t):
        vg, c, r = t
        keep()
        F, out = parts.spec(A, b)
        s.eq("free energy is the sum of its parts", r, F)
        parts.published("published", vg, out)
        c2 = parts.config(vg)
        s.ob("configuration kept", all(k in c2 and same(c[k], c2[k]) for k in c),
             "an evaluation changes the configuration")
    s.explore(run, post)
