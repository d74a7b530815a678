import numpy as np
from .common import *
from .vgp import gen, problem, vector, reference  # noqa: F401


def check(c):
    rng = np.random.default_rng(c["seed"])
    v, p, parts, info, d = problem(c, rng)
    n = c["n"]
    xs = [vector(rng, n, d) for _ in range(3)]
    na = len(xs[0]) - n * max(d, 1)
    xs[1][:na] = xs[0][:na]         # vectors that share one of their parts
    xs[2][na:] = xs[1][na:]
    keep0 = frozen(*[np.asarray(q) for q in info[:4]])
    work = np.empty_like(xs[0])
    for j in [0, 1, 0, 2, 2, 1, 2, 3, 4, 5]:
        if j < 3:
            x = xs[j]
        else:                       # one array, filled anew for each evaluation
            x = work
            x[:] = xs[j - 3]
        keep = frozen(x)
        F, out = reference(x, v, p, parts, info, n, d)
        with quiet():
            if rng.random() < .4:
                v.gradient(x) if j and "mt" in v.arg_out else None
            got = v.free_energy(x)
        unchanged("free_energy", keep, x)
        unchanged("free_energy: initial moments and data", keep0, *info[:4])
        ok("scalar value", np.ndim(got) == 0)
        close("free energy is the sum of its parts", got, F, 1e-10, scale=abs(F) + 1)
        pub = v.arg_out
        for k, w in out.items():
            ok("published entry %s" % k, k in pub)
            close("published %s" % k, pub[k], w, 1e-10)
