import copy
import numpy as np
from .common import *

METH = ["Euler", "Heun", "RK2", "RK4", "euler", "rk4"]


def gen(rng, tier):
    for mod in ("DW", "OU", "L63", "dw", "L96"):
        for data in (0, 1):
            yield dict(model=mod, data=data, run=0, meth=METH[rng.integers(6)],
                       seed=int(rng.integers(1 << 30)))
    for mod in ("DW", "OU", "L63"):
        for data in (0, 1):
            yield dict(model=mod, data=data, run=1, meth=METH[rng.integers(6)],
                       seed=int(rng.integers(1 << 30)))
    for mod in ("DW", "OU"):
        for data in (0, 1):
            yield dict(model=mod, data=data, run=1, main=1, meth=METH[rng.integers(6)],
                       seed=int(rng.integers(1 << 30)))
    for _ in range(6 if tier == "quick" else 80):
        yield dict(model=["DW", "OU", "L63"][rng.integers(3)], data=int(rng.integers(2)),
                   run=int(rng.random() < .5), meth=METH[rng.integers(6)], seed=int(rng.integers(1 << 30)))


def check(c):
    from src.var_bayes import simulation as sm
    from src.var_bayes.variational import VarGP
    from src.var_bayes.fwd_ode import FwdOde
    from src.var_bayes.bwd_ode import BwdOde
    from src.var_bayes.gaussian_like import GaussianLikelihood
    from src.var_bayes.prior_kl0 import PriorKL0
    rng = np.random.default_rng(c["seed"])
    mod = c["model"].upper()
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[mod]
    dt = float(rng.choice([.01, .02, .05] if d == 1 else [.01, .005]))
    n0 = int(rng.integers(30, 70)) if d == 1 else int(rng.integers(14, 20))
    t0 = float(rng.choice([0., 1.]))
    tf = t0 + n0 * dt
    dens = max(int(np.ceil(2.2 / (n0 * dt))), 3)
    sysn = float(rng.uniform(.5, 1.5)) if d == 1 else (
        float(rng.uniform(5, 9)) if rng.random() < .5 else rng.uniform(5, 9, d).tolist())
    th = {"DW": 1.1, "OU": 1.7, "L63": [10, 28, 2.667], "L96": 8.0}[mod]
    obsn = float(rng.uniform(.05, .4))
    mu0, tau0 = float(rng.normal()), float(rng.uniform(.3, .9))
    rs = int(rng.integers(0, 99))
    prm = {"Output_Name": "t", "Model": c["model"], "Ode-method": c["meth"], "Random-Seed": rs,
           "Time-window": {"t0": t0, "tf": tf, "dt": dt}, "Noise": {"sys": sysn, "obs": obsn},
           "Observations": {"density": dens, "operator": None}, "Drift": {"theta": th},
           "Prior": {"mu0": mu0, "tau0": tau0}}
    q = build(mod, sysn, np.asarray(th) if d == 3 else th, rs)
    with quiet():
        q.make_trajectory(t0, tf, dt)
    data = None
    N = len(q.time_window)
    if c["data"]:
        k = int(rng.integers(2, 5))
        t = obs_sets(rng, N, k)
        y = rng.normal(size=(k,) if d == 1 else (k, d))
        data = (t, y)
        kd = frozen(t, y)
    s = sm.Simulation("t")
    if rng.random() < .4:           # another configuration first, in this or another object
        prm2 = copy.deepcopy(prm)
        prm2["Noise"] = {"sys": float(rng.uniform(2, 3)), "obs": .7}
        prm2["Drift"] = {"theta": {"DW": .6, "OU": 2.5, "L63": [9, 26, 2.], "L96": 7.0}[mod]}
        prm2["Prior"] = {"mu0": 2., "tau0": 1.5}
        prm2["Random-Seed"] = rs + 1
        prm2["Observations"] = {"density": dens + 1, "operator": None}
        with quiet():
            (s if rng.random() < .5 else sm.Simulation("t")).setup(prm2, None)
    with quiet():
        s.setup(copy.deepcopy(prm), data)
    D = s.m_data
    p = D["model"]
    ok("model class", type(p) is type(q), type(p))
    same("system noise", p.sigma, q.sigma)
    same("drift", p.theta, q.theta)
    same("path", p.sample_path, q.sample_path)
    same("window", p.time_window, q.time_window)
    ok("single dim", bool(D["single_dim"]) == (d == 1))
    if data is None:
        with quiet():
            t, y, R = q.collect_obs(dens, obsn, None)
        same("observation times", D["obs_t"], t)
        same("observations", D["obs_y"], y)
        same("observation noise", D["obs_noise"], R)
    else:
        unchanged("given data", kd, *data)
        same("observation times", D["obs_t"], data[0])
        same("observations", D["obs_y"], data[1])
        close("observation noise", D["obs_noise"], obsn if d == 1 else obsn * np.eye(d), 1e-12)
    m0 = q.sample_path[0] + .1 * (q.rng.standard_normal() if d == 1 else q.rng.standard_normal(d))
    close("initial mean", D["m0"], m0, 1e-12)
    close("initial covariance", D["s0"], .2 if d == 1 else .2 * np.eye(d), 1e-12)
    close("prior mean", D["mu0"], mu0 if d == 1 else np.full(d, mu0), 1e-12)
    close("prior covariance", D["tau0"], tau0 if d == 1 else tau0 * np.eye(d), 1e-12)
    if not c["run"]:
        return
    single = d == 1
    f, b = FwdOde(dt, c["meth"], single), BwdOde(dt, c["meth"], single)
    obs_t, obs_y = np.asarray(D["obs_t"]), np.asarray(D["obs_y"])
    like = GaussianLikelihood(obs_y, obs_t, D["obs_noise"], None, single)
    kl = PriorKL0(np.asarray(D["mu0"]), np.asarray(D["tau0"]), single)
    ref = VarGP(q, D["m0"], D["s0"], f, b, like, kl, obs_y, obs_t)
    x0 = ref.initialization()
    f0 = ref.free_energy(x0)
    seen = []
    real = sm.SCG
    lim = int(rng.integers(2, 8))

    class Cut(real):
        """The real optimizer, with a smaller iteration limit to save time."""
        __slots__ = ()

        def __init__(self, fun, df, *a):
            o = dict(a[0]) if a else {}
            seen.append((fun, df, dict(o)))
            o["max_it"] = lim
            real.__init__(self, fun, df, o)

        def __call__(self, x, *a):
            seen.append(np.array(x))
            r = real.__call__(self, x, *a)
            seen.append((np.array(r[0]), float(r[1])))
            return r
    sm.SCG = Cut
    try:
        with quiet(), np.errstate(all="ignore"):
            O = program(prm, data) if c.get("main") else s.run() or s.output
            if not c.get("main") and c["seed"] % 2:
                # its results stay its own when another simulation comes afterwards
                k = len(seen)
                own = {n: np.array(v) for n, v in O.items()}
                prm3 = copy.deepcopy(prm)
                prm3["Random-Seed"], prm3["Prior"] = rs + 3, {"mu0": 1., "tau0": 1.2}
                after = sm.Simulation("u")
                after.setup(prm3, None)
                after.run()
                del seen[k:]
                ok("results kept by another simulation", set(own) == set(O), set(O))
                for n, v in own.items():
                    same("%s after another simulation" % n, np.asarray(O[n]), v)
    finally:
        sm.SCG = real
    if c.get("main"):
        O = {k: np.asarray(v)[0] if k in ("fx", "m0", "s0") else v for k, v in O.items()}
    for k in ("at", "bt", "fx", "mt", "st", "lamt", "psit", "m0", "s0"):
        ok("stored entry %s" % k, k in O)
    at, bt = np.asarray(O["at"]), np.asarray(O["bt"])
    n = N
    ok("shape of A(t)", at.shape == ((n,) if single else (n, d, d)), at.shape)
    ok("shape of b(t)", bt.shape == ((n,) if single else (n, d)), bt.shape)
    x = np.r_[at.ravel(), bt.ravel()]
    if len(seen) == 3:
        close("starting point", seen[1], x0, 1e-9)
        close("stored point is the optimizer's", x, seen[2][0], 1e-12)
        close("stored value is the optimizer's", O["fx"], seen[2][1], 1e-12)
    fx = ref.free_energy(x)
    close("stored value is the free energy of the stored point", np.asarray(O["fx"]).reshape(()), fx,
          1e-8, scale=abs(fx) + abs(f0))
    ok("no worse than the initial point", fx <= f0 + 1e-8 * (abs(f0) + 1), (fx, f0))
    for k, w in ref.arg_out.items():
        if k in O:
            close("stored %s belongs to the stored point" % k, O[k], w, 1e-8)
    g1, g0 = ref.gradient(x, True), ref.gradient(x0, True)
    ok("the free energy was optimized", fx < f0 or np.linalg.norm(g0) < 1e-6, (fx, f0))


def program(prm, data):
    """What the command-line program saves for these parameters and data."""
    import json, os, tempfile
    import vgpa_main
    from src.var_bayes.simulation import load
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        with open(os.path.join(tmp, "p.json"), "w") as fh:
            json.dump(prm, fh)
        if data is not None:
            with open(os.path.join(tmp, "d.csv"), "w") as fh:
                fh.writelines("%d,%r\n" % (t, float(y)) for t, y in zip(*data))
        os.chdir(tmp)
        try:
            vgpa_main.main("p.json", *([] if data is None else ["d.csv"]))
        finally:
            os.chdir(here)
        return load(os.path.join(tmp, "t.h5"))
