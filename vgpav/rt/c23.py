import json
import os
import tempfile
import numpy as np
from .common import *

KEYS = ['Output_Name', 'Model', 'Ode-method', 'Time-window', 'Noise', 'Observations', 'Drift',
        'Prior', 'Random-Seed']


def gen(rng, tier):
    for k in KEYS:
        yield dict(kind="missing", key=k, seed=int(rng.integers(1 << 30)))
    yield dict(kind="full", seed=int(rng.integers(1 << 30)))
    for mod in MODELS:
        yield dict(kind="model", model=mod, seed=int(rng.integers(1 << 30)))
    yield dict(kind="nomodel", seed=1)
    for what in ("model", "method", "step", "noise", "density"):
        yield dict(kind="main", what=what, seed=int(rng.integers(1 << 30)))
    for m in ("euler", "heun", "rk2", "rk4"):
        yield dict(kind="method", method=m, seed=int(rng.integers(1 << 30)))
    yield dict(kind="nomethod", seed=1)
    yield dict(kind="step", seed=int(rng.integers(1 << 30)))
    for _ in range(20 if tier == "quick" else 800):
        r = rng.integers(3)
        if r == 0:
            yield dict(kind="missing", key=KEYS[rng.integers(9)], seed=int(rng.integers(1 << 30)))
        elif r == 1:
            yield dict(kind="full", seed=int(rng.integers(1 << 30)))
        else:
            yield dict(kind="step", seed=int(rng.integers(1 << 30)))


def cases(rng, w):
    yield w
    yield w.lower()
    yield w.upper()
    yield w.capitalize()
    yield w.swapcase()
    for _ in range(4):
        yield "".join(ch.upper() if rng.random() < .5 else ch.lower() for ch in w)


def near(names):
    """Names next to the valid ones."""
    for v in names:
        for w in (v + " ", " " + v, v + "\t", v + "\n", v + "x", v + "0", v[:-1], v[1:], v + v,
                  v + "_" + v, v[::-1], v[0], v[0] + " " + v[1:], v + ";", [v], (v,), v.encode()):
            if not (isinstance(w, str) and w.lower() in [k.lower() for k in names]):
                yield w


def check(c):
    rng = np.random.default_rng(c["seed"])
    kind = c["kind"]
    if kind in ("missing", "full"):
        import vgpa_main
        vals = [None, 0, False, "", [], {}, 1.5, "DW", [1, 2], {"a": {"b": [None]}}, "x y"]
        p = {k: vals[rng.integers(len(vals))] for k in KEYS}
        for extra in ("Info", "Author", "model", "zz"):
            if rng.random() < .4:
                p[extra] = vals[rng.integers(len(vals))]
        if kind == "missing":
            del p[c["key"]]
            for other in (c["key"].lower() + " ", c["key"].lower(), c["key"].upper() + "_",
                          c["key"].replace("-", "_") + "_", c["key"].replace("-", " ") + "s"):
                if rng.random() < .3 and other not in KEYS:
                    p[other] = vals[rng.integers(len(vals))]
        order = list(p)
        rng.shuffle(order)
        p = {k: p[k] for k in order}
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "p.json")
            with open(fn, "w") as fh:
                json.dump(p, fh)
            if kind == "missing":
                raises("file without %s" % c["key"],
                       lambda: vgpa_main.validate_input_parameters_file(fn))
                with quiet():
                    try:
                        vgpa_main.main(fn)
                    except SystemExit as e:
                        ok("main exits with an error", e.code not in (0, None))
                    else:
                        raise Fail("main accepts a file without %s" % c["key"])
            else:
                with quiet():
                    r = vgpa_main.validate_input_parameters_file(fn)
                ok("parameters are returned as given", r == p and list(map(type, r.values())) ==
                   list(map(type, p.values())))
        return
    from src.var_bayes.simulation import Simulation
    from src.var_bayes.fwd_ode import FwdOde
    from src.var_bayes.bwd_ode import BwdOde

    def prm(model, meth="Euler", dt=.1):
        return {"Model": model, "Ode-method": meth, "Random-Seed": 1,
                "Time-window": {"t0": 0., "tf": 1., "dt": dt}, "Noise": {"sys": 1.5, "obs": .3},
                "Observations": {"density": 4, "operator": None},
                "Drift": {"theta": [10, 28, 2.667] if str(model).upper() == "L63" else 1.2},
                "Prior": {"mu0": .5, "tau0": .5}, "Output_Name": "x"}
    if kind == "model":
        q = build(c["model"], 1.5, np.array([10, 28, 2.667]) if c["model"] == "L63" else 1.2, 1)
        for name in cases(rng, c["model"]):
            s = Simulation("x")
            with quiet():
                s.setup(prm(name), None)
            ok("model %r" % name, type(s.m_data["model"]) is type(q), type(s.m_data["model"]))
    elif kind == "main":
        import vgpa_main
        p = prm("DW")
        if c["what"] == "model":
            p["Model"] = "XX"
        elif c["what"] == "method":
            p["Ode-method"] = "rk3"
        elif c["what"] == "step":
            p["Time-window"]["dt"] = -.1
        elif c["what"] == "noise":
            p["Noise"]["sys"] = -1.
        else:
            p["Observations"]["density"] = 1000
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as tmp:
            with open(os.path.join(tmp, "p.json"), "w") as fh:
                json.dump(p, fh)
            os.chdir(tmp)
            try:
                with quiet():
                    vgpa_main.main("p.json")
            except SystemExit as e:
                ok("main exits with an error", e.code not in (0, None), e.code)
            except Exception:
                pass
            else:
                raise Fail("main ends without an error although the %s is invalid" % c["what"])
            finally:
                os.chdir(here)
            ok("nothing is saved", os.listdir(tmp) == ["p.json"], os.listdir(tmp))
    elif kind == "nomodel":
        for name in ("", "XX", "DWW", "D W", "L64", "L63 ", None, 63, "lorenz", "O", " OU", "DW\n",
                     *near(("DW", "OU", "L63", "L96"))):
            raises("model %r" % (name,), lambda: Simulation("x").setup(prm(name), None))
    elif kind == "method":
        from .c01 import check as fwd
        from .c02 import check as bwd
        for name in cases(rng, c["method"]):
            for d in (0, 2):
                cc = dict(method=c["method"], d=d, n=4, dt=.1, seed=c["seed"])
                with _spell(name):
                    fwd(cc)
                    bwd(cc)
    elif kind == "nomethod":
        for name in ("", "rk3", "rk", "Eulerr", "heun ", None, 4, "rk-4", "midpoint", " euler",
                     *near(("euler", "heun", "rk2", "rk4"))):
            raises("method %r" % (name,), lambda: FwdOde(.1, name, True))
            raises("method %r" % (name,), lambda: BwdOde(.1, name, False))
    else:
        from src.numerics.utilities import num_integration
        for bad in (0, 0.0, -0.0, -1, -1e-12, -float(np.exp(rng.uniform(-9, 9)))):
            for m in ("euler", "heun", "rk2", "rk4"):
                for sd in (True, False):
                    raises("step %r" % bad, lambda: FwdOde(bad, m, sd))
                    raises("step %r" % bad, lambda: BwdOde(bad, m, sd))
                    raises("step %r" % bad, lambda: num_integration[m](bad, sd))
        for good in (1e-9, float(np.exp(rng.uniform(-9, 3)))):
            for m in ("euler", "heun", "rk2", "rk4"):
                with quiet():
                    FwdOde(good, m, True), BwdOde(good, m, False)


class _spell:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        from . import c01, c02
        self.old = c01.spell
        c01.spell = c02.spell = lambda meth, rng: self.name

    def __exit__(self, *a):
        from . import c01, c02
        c01.spell = c02.spell = self.old
