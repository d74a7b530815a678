"""The simulation hands its configuration to the right components: every component is a
recording contract; the optimizer returns an arbitrary point after arbitrary evaluations."""
import inspect
from .base import *
from .c18 import MODELS
from .c23 import Unknown
from .files import Disk, Text
from .vgp import freeze, same

SIM = "src.var_bayes.simulation"
PARTS = {"fwd": ("src.var_bayes.fwd_ode", "FwdOde"), "bwd": ("src.var_bayes.bwd_ode", "BwdOde"),
         "like": ("src.var_bayes.gaussian_like", "GaussianLikelihood"),
         "kl0": ("src.var_bayes.prior_kl0", "PriorKL0"),
         "vgp": ("src.var_bayes.variational", "VarGP"), "scg": ("src.numerics.optim_scg", "SCG")}


def contracts(J):
    J.under(SIM + ".Simulation.setup", SIM + ".Simulation.run", SIM + ".Simulation._stochastic_model",
            "vgpa_main.main")
    J.assume("components behave as their own properties say (C01-C20); here they are recording "
             "contracts with the real constructors' signatures")
    J.trust("pandas.read_csv parses a two-column file", "json.load parses the parameter file")
    for mod in MODELS:
        for data in ("sampled", "given"):
            with J.scope("Simulation[%s, observations %s]" % (mod, data)) as s:
                one(s, mod, data == "given")
    with J.scope("two simulations") as s:
        one(s, "DW", False, twice=True)
    for mod, given in (("L63", False), ("DW", True), ("OU", False), ("L96", True)):
        with J.scope("set up and run again[%s, observations %s]" % (
                mod, "given" if given else "sampled")) as s:
            one(s, mod, given, rerun=True)
    for name in ("named", "unnamed"):
        for data in ("no data file", "data file"):
            with J.scope("main[%s, %s]" % (name, data)) as s:
                main(s, name == "named", data == "data file")


class Rec:
    """Calls in order: (what, arguments by name, result)."""

    def __init__(self):
        self.calls = []

    def of(self, what):
        return [c for c in self.calls if c[0] == what]


def bound(real, a, k):
    """The arguments by the names of the real signature, defaults filled in."""
    b = inspect.signature(real).bind(None, *a, **k)
    b.apply_defaults()
    return dict(list(b.arguments.items())[1:])


def model_stub(s, rec, mod, N, D, single):
    def wrap(real):
        class Model:
            single_dim = single

            def __init__(self, *a, **k):
                self.args = bound(real.__init__, a, k)
                self.draws, self.path, self.rng = [], None, self
                rec.calls.append(("model", self.args, self))

            def make_trajectory(self, *a, **k):
                args = bound(real.make_trajectory, a, k)
                rec.calls.append(("path", args, self))
                n = len(rec.calls)
                self.path = s.arr("path%d" % n, N) if single else s.arr("path%d" % n, N, D)

            @property
            def sample_path(self):
                if self.path is None:
                    raise NotImplementedError("Sample path has not been created.")
                return self.path

            @property
            def time_window(self):
                return from_fn((poly(N),), lambda i: T.app("tk@%d" % s.uid, i))

            def collect_obs(self, *a, **k):
                args = bound(real.collect_obs, a, k)
                if self.path is None:
                    raise NotImplementedError("no path")
                n = len(rec.calls)
                K = s.int("K%d" % n, 1)
                out = (s.arr("ot%d" % n, K, kind="i"),
                       s.arr("oy%d" % n, K) if single else s.arr("oy%d" % n, K, D),
                       s.pos("or%d" % n) if single else s.arr("or%d" % n, D, D))
                rec.calls.append(("observe", args, out))
                return out

            def standard_normal(self, size=None):
                n = len(rec.calls)
                if size is None:
                    r = s.real("z%d" % n)
                else:
                    from ..eng import npshim
                    r = s.arr("z%d" % n, *[Num(d) for d in npshim.shape_of(size)])
                rec.calls.append(("draw", {"size": size}, r))
                self.draws.append(r)
                return r

            @property
            def sigma(self):
                return self.args["sigma"]

            @property
            def theta(self):
                return self.args["theta"]
        Model.__name__ = real.__name__
        Model.kind = mod
        return Model
    wrap.wraps = True
    return wrap


class Part:
    """Any component which is only handed on."""


def part_stub(rec, what):
    def wrap(real):
        class P_(Part):
            def __init__(self, *a, **k):
                self.args = bound(real.__init__, a, k)
                self.kept = {n: freeze(v) for n, v in self.args.items()}
                rec.calls.append((what, self.args, self))
        P_.__name__ = real.__name__
        return P_
    wrap.wraps = True
    return wrap


def vgp_stub(s, rec, size):
    def wrap(real):
        class VarGP(Part):
            def __init__(self, *a, **k):
                self.args = bound(real.__init__, a, k)
                self.kept = {n: freeze(v) for n, v in self.args.items()}
                self.at, self.memo = None, []
                rec.calls.append(("vgp", self.args, self))

            def initialization(self):
                x = s.arr("x0_%d" % len(rec.calls), size)
                rec.calls.append(("init", {}, freeze(x)))
                return x

            def evaluate(self, x):
                f = freeze(V.as_arr(x))
                for old, r in self.memo:
                    if same(old, f):
                        self.at = r
                        return r
                n = len(self.memo)
                r = (Num(P(T.sym("F%d_%d" % (id(self) % 997, n)))),
                     {k: s.arr("%s_%d_%d" % (k, s.uid, len(rec.calls) + n), s.int("n" + k, 1))
                      for k in ("m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")})
                self.memo.append((f, r))
                self.at = r
                return r

            def free_energy(self, x, *a, **k):
                return self.evaluate(x)[0]

            def gradient(self, x, *a, eval_fun=False, **k):
                if eval_fun or (a and a[0]) or k:
                    self.evaluate(x)
                rec.calls.append(("gradient", {}, self))
                return s.arr("g%d" % len(rec.calls), size)

            @property
            def arg_out(self):
                if self.at is None:
                    return load.Runtime.mkdict({})
                return load.Runtime.mkdict(dict(self.at[1]))
        return VarGP
    wrap.wraps = True
    return wrap


def scg_stub(s, rec, size):
    def wrap(real):
        class SCG:
            """post: (x, f(x)) with x any point; f and df have been called anywhere."""

            def __init__(self, *a, **k):
                b = inspect.signature(real.__init__).bind(None, *a, **k).arguments
                self.f, self.df = b["f"], b["df"]
                self.stats = {}
                self.statistics = {}

            def check_gradient_function(self, x, *a, **k):
                self.f(x)

            def __call__(self, x0, *args):
                n = len(rec.calls)
                start = freeze(V.as_arr(x0))
                x, other = s.arr("xo%d" % n, size), s.arr("xp%d" % n, size)
                fx = self.f(x, *args)
                mark = len(rec.of("gradient"))
                self.df(other, eval_fun=True)
                gr = [c[2] for c in rec.of("gradient")[mark:]]
                rec.calls.append(("optimize", {"start": start, "gradient of": gr, "fx": fx,
                                               "x": freeze(x)}, self))
                return x, fx
        return SCG
    wrap.wraps = True
    return wrap


def configuration(s, mod, tag="", given=False):
    single = mod in ("DW", "OU")
    th = s.arr("th" + tag, 3) if mod == "L63" else s.real("th" + tag)
    c = dict(t0=s.real("t0" + tag), tf=s.real("tf" + tag), dt=s.pos("dt" + tag),
             seed=s.int("seed" + tag, 0), sys=s.pos("sys" + tag), obs=s.pos("obs" + tag), th=th,
             density=s.int("density" + tag, 1), mu=s.real("mu" + tag), tau=s.pos("tau" + tag),
             operator=None, method=Method())
    if mod == "L63" and given:
        c["sys"] = s.arr("sys" + tag, 3)
    elif mod == "L96" and given:
        c["sys"] = s.pd("sys" + tag, s.int("D" + tag, 10), s.int("D" + tag, 10))
    c["params"] = lambda: load.Runtime.mkdict({
        "Output_Name": "x", "Model": mod.lower(), "Ode-method": c["method"],
        "Random-Seed": c["seed"],
        "Time-window": load.Runtime.mkdict({"t0": c["t0"], "tf": c["tf"], "dt": c["dt"]}),
        "Noise": load.Runtime.mkdict({"sys": c["sys"], "obs": c["obs"]}),
        "Observations": load.Runtime.mkdict({"density": c["density"], "operator": c["operator"]}),
        "Drift": load.Runtime.mkdict({"theta": c["th"]}),
        "Prior": load.Runtime.mkdict({"mu0": c["mu"], "tau0": c["tau"]})})
    return c


class Method(str):
    """Any method name."""

    def __new__(cls):
        return str.__new__(cls, "\x00method")

    def same(self, *a):
        return self
    upper = lower = casefold = strip = __str__ = same


def one(s, mod, given, twice=False, rerun=False):
    rec = Rec()
    single = mod in ("DW", "OU")
    N = s.int("N", 2)
    D = None if single else 3 if mod == "L63" else s.int("D", 10)
    n = poly(N)
    d = None if single else poly(D)
    size = n + n if single else mul(n, mul(d, d)) + mul(n, d)
    rep = {"%s:%s" % mc: model_stub(s, rec, m, N, D, m in ("DW", "OU")) for m, mc in MODELS.items()}
    rep.update({"%s:%s" % PARTS[p]: part_stub(rec, p) for p in ("fwd", "bwd", "like", "kl0")})
    rep["%s:%s" % PARTS["vgp"]] = vgp_stub(s, rec, size)
    rep["%s:%s" % PARTS["scg"]] = scg_stub(s, rec, size)
    w = s.world(replace=rep)
    cls = w.get(SIM, "Simulation")
    c = configuration(s, mod, given=given)
    c2 = configuration(s, mod, "'") if twice or rerun else None
    first = None
    if rerun and not given:
        K1 = s.int("K'", 1)
        first = (s.arr("dt'", K1, kind="i"), s.arr("dy'", K1) if single else s.arr("dy'", K1, D))
    K = s.int("K", 1)
    data = None
    if given:
        data = (s.arr("dt_", K, kind="i"), s.arr("dy", K) if single else s.arr("dy", K, D))
    keep = s.unchanged("data unchanged", *([] if data is None else data))

    def run():
        del rec.calls[:]
        if twice:
            other = cls("other")
            other.setup(c2["params"](), None)
            other.run()
        sim = cls("x")
        if rerun:
            sim.setup(c2["params"](), first)
            sim.run()
        m = len(rec.calls)
        sim.setup(c["params"](), data)
        if twice:
            third = cls("third")
            k = len(rec.calls)
            third.setup(c2["params"](), None)
            del rec.calls[k:]
        sim.run()
        e = len(rec.calls)
        if twice:
            # its results stay its own when another simulation comes afterwards
            after = cls("after")
            after.setup(c2["params"](), None)
            after.run()
        return sim, list(rec.calls[m:e])

    def post(v):
        sim, calls = v
        keep()
        of = lambda what: [x for x in calls if x[0] == what]

        def single_call(what, label):
            s.ob("one %s" % label, len(of(what)) == 1, "%d" % len(of(what)))
            return of(what)[0] if len(of(what)) == 1 else None

        def arg(label, got, want, shape=None):
            if isinstance(want, V.Arr) or callable(want):
                sh = want.shape if shape is None else shape
                s.arr_eq(label, got, sh, want if callable(want) else (lambda i: want.get(i)))
            elif V.is_scalar(want):
                s.eq(label, got, want)
            else:
                s.ob(label, got is want, "%r instead of %r" % (got, want))
        mo = single_call("model", "model")
        if mo is None:
            return
        model = mo[2]
        s.ob("the configured model", model.kind == mod, "%s" % model.kind)
        arg("system noise", model.args["sigma"], c["sys"])
        arg("drift parameters", model.args["theta"], c["th"])
        arg("seed", model.args["r_seed"], c["seed"])
        pa = single_call("path", "path")
        if pa is None:
            return
        s.ob("path of the model", pa[2] is model)
        for k, q in (("t0", "t0"), ("tf", "tf"), ("dt", "dt")):
            arg("window: %s" % k, pa[1][k], c[q])
        path = model.sample_path
        if given:
            s.ob("given observations are not sampled again", not of("observe"), "sampled")
            ot, oy = data
            noise = (lambda i: poly(c["obs"])) if single else (
                lambda i: mul(delta(i[0], i[1]), poly(c["obs"])))
        else:
            ob = single_call("observe", "sampling of observations")
            if ob is None:
                return
            arg("density", ob[1]["n_obs"], c["density"])
            arg("noise of the sampled observations", ob[1]["rn"], c["obs"])
            arg("mask of the sampled observations", ob[1]["h_mask"], c["operator"])
            ot, oy, R = ob[2]
            noise = (lambda i: poly(R)) if single else (lambda i: R.get(i))
        dims = () if single else (d,)
        dr = single_call("draw", "draw for the initial mean")
        if dr is None:
            return
        s.ob("the draw comes from the model's generator", dr[2] in model.draws if single else
             any(z is dr[2] for z in model.draws))
        z = (lambda i: poly(dr[2])) if single else (lambda i: dr[2].get(i))
        m0 = lambda i: path.get((ZERO,) + tuple(i)) + T.scale(z(i), T.Q(1, 10))
        eye = lambda x: (lambda i: poly(x)) if single else (lambda i: mul(delta(i[0], i[1]), poly(x)))
        parts = {}
        for what, label in (("fwd", "forward solver"), ("bwd", "backward solver"),
                            ("like", "likelihood"), ("kl0", "initial energy"), ("vgp", "free energy")):
            x = single_call(what, label)
            if x is None:
                return
            parts[what] = x[2]
        for what in ("fwd", "bwd"):
            a = parts[what].args
            arg("time step of %s" % what, a["dt"], c["dt"])
            s.ob("method of %s" % what, a["method"] is c["method"], "%r" % a["method"])
            s.ob("dimension of %s" % what, bool(a["single_dim"]) == single)
        a = parts["like"].args
        arg("observations of the likelihood", a["values"], oy)
        s.arr_eq("times of the likelihood", V.as_arr(a["times"]), ot.shape, lambda i: ot.get(i))
        if single:
            s.eq("noise of the likelihood", a["noise"], noise(()))
        else:
            s.arr_eq("noise of the likelihood", a["noise"], (d, d), noise)
        arg("operator of the likelihood", a["operator"], c["operator"])
        s.ob("dimension of the likelihood", bool(a["single_dim"]) == single)
        a = parts["kl0"].args
        s.arr_eq("prior mean", a["mu0"], dims, lambda i: poly(c["mu"]))
        s.arr_eq("prior covariance", a["tau0"], dims * 2, eye(c["tau"]))
        s.ob("dimension of the initial energy", bool(a["single_dim"]) == single)
        a = parts["vgp"].args
        s.ob("model of the free energy", a["model"] is model)
        s.arr_eq("initial mean", a["m0"], dims, m0)
        s.arr_eq("initial covariance", a["s0"], dims * 2, eye(0.2))
        for k, what in (("fwd_ode", "fwd"), ("bwd_ode", "bwd"), ("likelihood", "like"), ("kl0", "kl0")):
            s.ob("%s of the free energy" % k, a[k] is parts[what], "%r" % (a[k],))
        arg("observations of the free energy", a["obs_y"], oy)
        s.arr_eq("times of the free energy", V.as_arr(a["obs_t"]), ot.shape, lambda i: ot.get(i))
        for what in ("like", "vgp", "kl0"):
            p = parts[what]
            s.ob("arguments of %s are not changed afterwards" % what, all(
                same(f, freeze(p.args[n])) for n, f in p.kept.items() if f[0] in ("arr", "num")))
        op = single_call("optimize", "optimization")
        if op is None:
            return
        vg, op = parts["vgp"], op[1]
        ini = of("init")
        s.ob("optimization starts at the initial parameters",
             any(same(op["start"], x[2]) for x in ini), "another starting point")
        s.ob("the gradient is that of the free energy", op["gradient of"] == [vg])
        best = next((r for f, r in vg.memo if same(f, op["x"])), None)
        s.ob("the free energy of these components is optimized",
             best is not None and is_zero(poly(best[0]) - poly(op["fx"])), "another function")
        if best is None:
            return
        O, g = sim.output, op["x"][2]
        if single:
            s.arr_eq("stored A(t)", O.get("at"), (n,), lambda i: g(i))
            s.arr_eq("stored b(t)", O.get("bt"), (n,), lambda i: g((n + i[0],)))
        else:
            tot = mul(n, mul(d, d))
            s.arr_eq("stored A(t)", O.get("at"), (n, d, d), lambda i: g(
                (mul(mul(i[0], d), d) + mul(i[1], d) + i[2],)))
            s.arr_eq("stored b(t)", O.get("bt"), (n, d), lambda i: g((tot + mul(i[0], d) + i[1],)))
        s.eq("stored value", O.get("fx"), best[0])
        for k, x in best[1].items():
            s.ob("stored %s belongs to the stored point" % k, k in O and
                 same(freeze(O[k]), freeze(x)), "another point's")
        s.ob("no other entries", sorted(O) == sorted(list(best[1]) + ["at", "bt", "fx"]),
             str(sorted(O)))
    s.explore(run, post)


def main(s, named, with_data):
    log = []

    class Simulation:
        def __init__(self, *a, **k):
            self.name = bound(real_init, a, k)["name"]
            log.append(("new", self))

        def setup(self, *a, **k):
            log.append(("setup", self, bound(lambda self, params, data: None, a, k)))

        def run(self):
            log.append(("run", self))

        def save(self):
            log.append(("save", self))
    real_init = lambda self, name=None: None
    t, y = s.arr("t", s.int("K", 1), kind="i"), s.arr("y", s.int("K", 1))

    class Column:
        def __init__(self, a):
            self.a = a
            self.values = a

        def to_numpy(self, *x, **k):
            return self.a

        def vg_array(self):
            return self.a

        def tolist(self):
            return self.a.tolist()

    class Frame:
        def __init__(self, names):
            self.c = dict(zip(names, (Column(t), Column(y))))
            self.columns = list(names)

        def __getitem__(self, n):
            return self.c[n]

        def __getattr__(self, n):
            if n.startswith("__") or n not in self.c:
                raise AttributeError(n)
            return self.c[n]

    def read_csv(f, *a, names=None, header="infer", **k):
        if hasattr(f, "read"):
            f = f.read()
        else:
            f = disk.open(f).read()
        if not isinstance(f, Text) or f.value != "csv" or a or names is None and header is not None:
            V.unsupported("read_csv with these arguments")
        for o in k:
            if o not in ("sep", "engine"):
                V.unsupported("read_csv(%s=..)" % o)
        names = [0, 1] if names is None else list(names)
        return Frame(names)
    from .c23 import KEYS, outcome
    p = {k: object() for k in KEYS}
    p["Output_Name"] = "a name" if named else None
    disk = Disk({"p.json": Text(p), "d.csv": Text("csv")})
    w = s.world(ext=dict(disk.ext(), pandas=load.N.Namespace("pandas", dict(read_csv=read_csv))),
                replace={SIM + ":Simulation": Simulation})
    f = w.get("vgpa_main", "main")

    def run():
        del log[:]
        return outcome(lambda: f("p.json", "d.csv") if with_data else f("p.json"))

    def post(v):
        s.ob("the simulation completes", v[0] == "value", "%s %s" % v)
        s.ob("set up, run and saved, in this order", [x[0] for x in log] == [
            "new", "setup", "run", "save"] and len({id(x[1]) for x in log}) == 1,
            str([x[0] for x in log]))
        st = next((x[2] for x in log if x[0] == "setup"), None)
        if st is None:
            return
        q = st["params"]
        s.ob("the parameters of the file", isinstance(q, dict) and list(q) == list(p) and
             all(q[k] is p[k] for k in p))
        nm = log[0][1].name
        s.ob("name", nm == ("a name" if named else nm) and isinstance(nm, str) and nm != "", repr(nm))
        if not with_data:
            s.ob("no data", st["data"] is None)
            return
        try:
            a, b = st["data"][0], st["data"][1]
        except Exception as e:
            s.ob("data as (times, values)", False, str(e))
            return
        s.arr_eq("times of the data", a, t.shape, lambda i: t.get(i))
        s.arr_eq("values of the data", b, y.shape, lambda i: y.get(i))
    s.explore(run, post)
