"""Configuration: required keys (every subset of the nine keys), names in every letter case,
the sign of the time step for every real number."""
import itertools
from .base import *
from .files import Disk, Text
from .c01 import METHODS, CLASS
from .c18 import MODELS

KEYS = ("Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift",
        "Prior", "Random-Seed")
VALID = "vgpa_main.validate_input_parameters_file"


class Opaque:
    """A value nothing is known about: using it in any way is not understood."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        V.unsupported("the value of a parameter is used (%s)" % n)

    def __bool__(self):
        V.unsupported("the truth of a parameter is used")


class Unknown(str):
    """Any name which is, however its case is changed, none of the known ones."""

    def __new__(cls):
        return str.__new__(cls, "\x00any other name")

    def same(self, *a):
        return self
    upper = lower = casefold = title = capitalize = swapcase = __str__ = same


def contracts(J):
    J.under(VALID, "vgpa_main.main (rejection)",
            "src.var_bayes.simulation.Simulation._stochastic_model",
            "src.var_bayes.simulation.Simulation.setup (model selection)",
            "src.var_bayes.fwd_ode.FwdOde.__init__", "src.var_bayes.bwd_ode.BwdOde.__init__",
            *["src.numerics.%s.%s.__init__" % (METHODS[m], CLASS[m]) for m in METHODS],
            "src.numerics.ode_solver.OdeSolver.__init__")
    J.trust("json.load returns the object the file describes",
            "str.upper/lower/casefold change only the letter case")
    with J.scope("validate_input_parameters_file") as s:
        keys(s)
    with J.scope("main") as s:
        main(s)
    with J.scope("main, rejected configuration") as s:
        refused(s)
    with J.scope("model names") as s:
        models(s)
    for kind in ("fwd", "bwd"):
        for single in (True, False):
            with J.scope("%s method names[%s]" % (kind, "scalar" if single else "vector")) as s:
                methods(s, kind, single)
            for m in METHODS:
                with J.scope("%s time step[%s, %s]" % (kind, m, "scalar" if single else "vector")) as s:
                    step(s, kind, m, single)
    for m in METHODS:
        with J.scope("solver time step[%s]" % m) as s:
            step(s, None, m, True)


def subsets():
    for r in range(10):
        for c in itertools.combinations(KEYS, r):
            yield c


def world(s, disk, **k):
    rec = []

    def simulation(*a, **kw):
        rec.append(a)
        raise RuntimeError("the contract ends here")
    w = s.world(ext=dict(disk.ext(), pandas=load.N.Namespace("pandas", {})),
                replace=dict({"src.var_bayes.simulation:Simulation": simulation}, **k))
    return w, rec


def outcome(fn):
    try:
        return "value", fn()
    except SystemExit as e:
        return "exit", e.code
    except Exception as e:
        return "raise", e


def values(ks):
    """Values of the entries: opaque, or all the ones that count as false."""
    yield {k: Opaque() for k in ks}
    yield {k: (None, False, "", 0)[i % 4] for i, k in enumerate(ks)}


def keys(s):
    disk = Disk()
    w, _ = world(s, disk)
    f = w.get("vgpa_main", "validate_input_parameters_file")
    bad = {"missing": "", "full": "", "same": ""}
    extra = ("Info", "model", "drift", " Noise", "Random-seed")
    for c in subsets():
        for p in values(c + extra):
            disk.files = {"p.json": Text(p), "other": Text({k: 1 for k in KEYS})}
            before = dict(p)
            how, v = outcome(lambda: f("p.json"))
            if len(c) < 9:
                if how != "raise":
                    bad["missing"] = "accepted without %s" % sorted(set(KEYS) - set(c))
            elif how != "value":
                bad["full"] = "rejected: %s" % (v,)
            elif not isinstance(v, dict) or list(v) != list(before) or any(
                    v[k] is not before[k] for k in before):
                bad["same"] = "not returned as given"
    s.ob("a file lacking a required key is rejected", not bad["missing"], bad["missing"])
    s.ob("a complete file is accepted", not bad["full"], bad["full"])
    s.ob("a complete file is returned as given", not bad["same"], bad["same"])


def main(s):
    disk = Disk()
    w, rec = world(s, disk)
    f = w.get("vgpa_main", "main")
    why = ""
    for c in subsets():
        if len(c) == 9:
            continue
        for p in values(c + ("Info",)):
            disk.files = {"p.json": Text(p)}
            how, v = outcome(lambda: f("p.json"))
            if not (how == "raise" or how == "exit" and v not in (0, None)) or rec:
                why = "without %s: %s %s" % (sorted(set(KEYS) - set(c)), how, v)
    s.ob("exits with an error and starts nothing when a key is missing", not why, why)
    how, v = outcome(lambda: f())
    s.ob("exits with an error without a parameter file",
         how == "raise" or how == "exit" and v not in (0, None), "%s %s" % (how, v))


class Rejecting:
    """Stands for Simulation: the configuration is rejected where `at` says."""
    at, error, did = "setup", ValueError, []

    def _step(self, what):
        self.did.append(what)
        if what == self.at:
            raise self.error("rejected")

    def __init__(self, *a, **k):
        self._step("new")

    def setup(self, *a, **k):
        self._step("setup")

    def run(self, *a, **k):
        self._step("run")

    def save(self, *a, **k):
        self._step("save")


def refused(s):
    disk = Disk()
    why = {}
    for at in ("setup", "run"):
        for err in (ValueError, RuntimeError, NotImplementedError, TypeError, KeyError,
                    ArithmeticError, IndexError, load.L.LinAlgError):
            cls = type("Simulation", (Rejecting,), {"at": at, "error": err, "did": []})
            w = s.world(ext=dict(disk.ext(), pandas=load.N.Namespace("pandas", {})),
                        replace={"src.var_bayes.simulation:Simulation": cls})
            f = w.get("vgpa_main", "main")
            disk.files = {"p.json": Text({k: "x" for k in KEYS})}
            how, v = outcome(lambda: f("p.json"))
            if not (how == "raise" or how == "exit" and v not in (0, None)):
                why["status"] = "%s in %s(): %s %s" % (err.__name__, at, how, v)
            if cls.did != ["new", "setup", "run"][:len(cls.did)] or cls.did[-1:] != [at]:
                why["done"] = "%s in %s(): %s" % (err.__name__, at, cls.did)
    s.ob("exits with an error when the configuration is rejected", "status" not in why,
         why.get("status", ""))
    s.ob("nothing is run or saved after a rejection", "done" not in why, why.get("done", ""))


def spellings(w):
    return ["".join(t) for t in itertools.product(*[sorted({c.upper(), c.lower()}) for c in w])]


def models(s):
    built = []

    def stub(name):
        class Model:
            single_dim = True

            def __init__(self, *a, **k):
                built.append((name, a, k))

            def make_trajectory(self, *a, **k):
                raise Built

            @property
            def sample_path(self):
                raise Built
        Model.__name__ = name
        return Model

    class Built(Exception):
        pass
    w = s.world(replace={"%s:%s" % mc: stub(m) for m, mc in MODELS.items()},
                ext={"h5py": load.N.Namespace("h5py", {})})
    cls = w.get("src.var_bayes.simulation", "Simulation")
    sg, th, seed = Opaque(), Opaque(), Opaque()

    def setup(name):
        del built[:]
        p = {"Model": name, "Ode-method": "euler", "Random-Seed": seed,
             "Time-window": {"t0": 0, "tf": 1, "dt": 1}, "Noise": {"sys": sg, "obs": 1},
             "Observations": {"density": 4, "operator": None}, "Drift": {"theta": th},
             "Prior": {"mu0": 1, "tau0": 1}, "Output_Name": "x"}
        return outcome(lambda: cls("x").setup(p, None))
    for m in MODELS:
        why = ""
        for name in spellings(m):
            how, v = setup(name)
            if not isinstance(v, Built) or [b[0] for b in built] != [m]:
                why = "%r: %s %s, built %s" % (name, how, v, [b[0] for b in built])
        s.ob("%s in every letter case" % m, not why, why)
    why = ""
    near = ["", "D", "DWW", "L", "L6", "L633", "L65", "O U", "OU ", " DW", "L-63", "Lorenz63",
            "DOUBLEWELL", "63", None, 63, ("DW",)]
    for name in [Unknown()] + near:
        how, v = setup(name)
        if how != "raise" or isinstance(v, Built) or built:
            why = "%r: %s %s" % (name, how, v)
    s.ob("any other name is rejected", not why, why)


def methods(s, kind, single):
    solved = []

    def stub(m):
        def solve(self, *a, **k):
            solved.append(m)
            return "result"
        return solve
    meth = "solve_fwd" if kind == "fwd" else "solve_bwd"
    w = s.world(replace={"src.numerics.%s:%s.%s" % (METHODS[m], CLASS[m], meth): stub(m)
                         for m in METHODS})
    cls = w.get("src.var_bayes.%s_ode" % kind, "FwdOde" if kind == "fwd" else "BwdOde")
    dt = s.pos("dt")
    for m in METHODS:
        why = ""
        for name in spellings(m):
            del solved[:]

            def go():
                o = cls(dt, name, single)
                return o(*[Opaque() for _ in range(5)])
            how, v = outcome(go)
            if how != "value" or v != "result" or solved != [m]:
                why = "%r: %s %s, used %s" % (name, how, v, solved)
        s.ob("%s in every letter case" % m, not why, why)
    why = ""
    for name in [Unknown(), "", "rk", "rk3", "rk44", "eul", "eulerr", "rk 4", " heun", "rk-2",
                 "runge_kutta4", "Midpoint", None, 4]:
        how, v = outcome(lambda: cls(dt, name, single))
        if how != "raise":
            why = "%r: %s %s" % (name, how, v)
    s.ob("any other name is rejected", not why, why)


def step(s, kind, m, single):
    w = s.world()
    dt = s.real("dt")
    if kind:
        cls = w.get("src.var_bayes.%s_ode" % kind, "FwdOde" if kind == "fwd" else "BwdOde")
        run = lambda: cls(dt, m, single)
    else:
        tab = w.get("src.numerics.utilities", "num_integration")
        run = lambda: tab[m](dt, single)

    def post(_):
        s.ob("a time step is accepted only when positive",
             C.decide("lt", neg(poly(dt))) is True, "accepted although dt <= 0 is possible")

    def raises(e):
        return C.decide("le", poly(dt)) is True and not isinstance(e, AssertionError)
    seen = s.explore(run, post, raises)
    s.ob("non-positive steps are rejected, positive ones accepted",
         seen["return"] > 0 and seen["raise"] > 0, str(seen))
