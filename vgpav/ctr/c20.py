"""Seeded processes are functions of their arguments and calls: two of them agree for every
integer seed, whatever else draws random numbers or uses other processes in between."""
from .base import *
from . import c18
from .c17 import process, sampling
from .c18 import MODELS
from .trapz import breaks
from .vgp import freeze, same, thaw

SP = "src.dynamics.stochastic_process.StochasticProcess"


def contracts(J):
    J.under(SP + ".__init__", SP + ".rng", SP + ".collect_obs", SP + ".single_dim",
            *["%s.%s.%s" % (m, c, f) for m, c in MODELS.values()
              for f in ("__init__", "make_trajectory")],
            "src.var_bayes.simulation.Simulation.setup")
    J.trust("a numpy Generator's stream of draws is determined by its seed",
            "draws outside the process's generator may have any value")
    for mod, kinds in (("DW", ("scalar",)), ("OU", ("scalar", "mean given")),
                       ("L63", ("full", "vector")), ("L96", ("full", "scalar"))):
        for kind in kinds:
            with J.scope("%s[%s]" % (MODELS[mod][1], kind)) as s:
                two(s, mod, kind)
    for mask, nk in (("scalar state", "scalar"), ("none", "scalar"), ("none", "vector"),
                     ("none", "matrix"), ("index list", "vector")):
        with J.scope("collect_obs[mask: %s, noise: %s]" % (mask, nk)) as s:
            observe(s, mask, nk)
    for mod in ("DW", "OU", "L63", "L96"):
        with J.scope("Simulation.setup[%s]" % mod) as s:
            setups(s, mod)


def disturb(w, others):
    """Anything else: other processes with the same arguments, the shared generators."""
    import random
    rnd = w.external("numpy.random")
    rnd.seed(7)
    rnd.standard_normal(3)
    w.external("random").seed(1)
    w.external("random").random()
    for p in others:
        p.rng.standard_normal(5)
        p.rng.standard_normal()


def window(s):
    t0, dt = s.real("t0"), s.pos("dt")
    tf = s.real("tf")
    s.learn(("lt", poly(t0) + poly(dt) - poly(tf)))
    s.learn(("le", poly(dt) - ONE))
    return t0, tf, dt


def agree(s, label, x, y):
    """The two results are equal, entry by entry."""
    if isinstance(x, SList):
        x, y = V.as_arr(x), V.as_arr(y)
    if V.is_scalar(x) or not isinstance(x, Arr):
        s.eq(label, x, y)
        return
    s.arr_eq(label, x, y.shape, lambda i: y.get(i))


def two(s, mod, kind):
    w = s.world(watch=False)
    seed = s.int("seed", 0)
    make, *_ = c18.build(s, w, mod, kind, seed)
    t0, tf, dt = window(s)
    mu = s.real("mu")

    def go(p):
        if kind == "mean given":
            p.make_trajectory(t0, tf, dt, mu)
        else:
            p.make_trajectory(t0, tf, dt)

    def results(p, others):
        out = []
        go(p)
        out.append(p.sample_path.copy())
        disturb(w, others)
        out.append(p.rng.standard_normal(4))
        go(p)
        out.append(p.sample_path.copy())
        disturb(w, others)
        out.append(p.rng.standard_normal(4))
        return out

    def run():
        o = make()
        a = results(make(), [])
        b, b2 = make(), make()
        disturb(w, [o])
        go(o)
        return a, results(b, [o, b2])

    names = ["path", "further draws", "second path", "last draws"]

    def post(v):
        for n, x, y in zip(names, *v):
            agree(s, n, x, y)

    s.explore(run, post)


def observe(s, mask, nk):
    w = s.world(watch=False)
    seed = s.int("seed", 0)
    make, N, dt, D, x, tk = process(s, w, mask, seed)
    q = s.int("density", 1)
    sampling(s, N, dt, q)
    mk, O = None, D
    if mask == "index list":
        mk, O, _ = breaks(s, "mask", D, "list", 1)
    r = s.pos("r") if nk == "scalar" else s.arr("r", O) if nk == "vector" else s.arr("r", O, O)
    if nk != "scalar":
        C.POS["r@%d" % s.uid] = "pos"

    def results(p, others):
        out = list(p.collect_obs(q, r, mk))
        disturb(w, others)
        out += list(p.collect_obs(q, r, mk))
        return out + [p.rng.standard_normal(4)]

    def run():
        o = make()
        a = results(make(), [])
        b = make()
        disturb(w, [o])
        return a, results(b, [o])
    names = ["observation times", "observations", "observation noise"]
    names += ["second " + n for n in names] + ["further draws"]

    def post(v):
        for n, x, y in zip(names, *v):
            agree(s, n, x, y)
    seen = s.explore(run, post, lambda e: isinstance(e, ValueError))   # refused density (C17)
    s.ob("some path returns", seen["return"] > 0, str(seen))


class Collect:
    """collect_obs by contract: a function of the process's path, window, arguments and the
    state of its generator, from which it draws."""

    def __init__(self, s, K, single, D):
        self.s, self.table, self.K, self.shape = s, [], K, (K,) if single else (K, D)
        self.single, self.D = single, D

    def __call__(self):
        def collect_obs(p, n_obs, rn, h_mask=None):
            g = p.rng
            key = [freeze(v) for v in (p.sample_path, p.time_window, n_obs, rn, h_mask, g.count)] + [
                freeze(Num(k)) for k in g.key]
            g.standard_normal(3)
            for old, out in self.table:
                if len(old) == len(key) and all(same(a, b) for a, b in zip(old, key)):
                    return tuple(thaw(z) for z in out)
            n = len(self.table)
            out = [self.s.arr("ot%d" % n, self.K, kind="i"), self.s.arr("oy%d" % n, *self.shape),
                   rn if self.single else self.s.arr("or%d" % n, self.D, self.D)]
            out = [freeze(z) for z in out]
            self.table.append((key, out))
            return tuple(thaw(z) for z in out)
        return collect_obs


def setups(s, mod):
    single, D = mod in ("DW", "OU"), {"L63": 3, "L96": 40}.get(mod)
    w = s.world(watch=False, replace={"src.dynamics.stochastic_process:StochasticProcess.collect_obs":
                         Collect(s, s.int("K", 1), single, D)()})
    cls = w.get("src.var_bayes.simulation", "Simulation")
    seed = s.int("seed", 0)
    t0, tf, dt = window(s)
    q, r, sg = s.int("density", 1), s.pos("rn"), s.pos("sg")
    mu, tau = s.real("mu0"), s.pos("tau0")
    th = s.arr("th", 3) if mod == "L63" else s.pos("th") if mod == "OU" else s.real("th")

    def one():
        p = {"Model": mod, "Ode-method": "euler", "Random-Seed": seed,
             "Time-window": {"t0": t0, "tf": tf, "dt": dt}, "Noise": {"sys": sg, "obs": r},
             "Observations": {"density": q, "operator": None}, "Drift": {"theta": th},
             "Prior": {"mu0": mu, "tau0": tau}, "Output_Name": "x"}
        sim = cls("x")
        sim.setup(p, None)
        return sim

    def run():
        a = one()
        disturb(w, [a.m_data["model"]])
        b = one()
        return a.m_data, b.m_data

    def post(v):
        x, y = v
        agree(s, "path", x["model"].sample_path, y["model"].sample_path)
        for k, n in (("obs_t", "observation times"), ("obs_y", "observations"),
                     ("obs_noise", "observation noise"), ("m0", "initial mean"),
                     ("s0", "initial covariance"), ("mu0", "prior mean"), ("tau0", "prior covariance")):
            agree(s, n, x[k], y[k])
    s.explore(run, post)
