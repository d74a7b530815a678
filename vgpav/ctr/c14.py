"""my_trapz: the piecewise sum telescopes to the composite trapezoidal sum."""
from .base import *
from .trapz import breaks, trapz_spec


def contracts(J):
    J.under("src.numerics.utilities.my_trapz")
    for rank in (1, 2, 3):
        for kind, num in [(k, n) for k in ("none", "empty", "list", "array",
                                           "nothing but the values") for n in "fi"]:
            if num == "i" and kind in ("empty", "array"):
                continue
            with J.scope("my_trapz[rank %d, breaks %s%s]" % (rank, kind, ", whole numbers" * (num == "i"))) as s:
                w = s.world()
                N = s.int("N", 2)
                sh = tuple(s.int("d%d" % i, 1) for i in range(rank - 1))
                fx = s.arr("fx", N, *sh, kind=num)
                dx = s.real("dx")
                fam = None
                if kind in ("none", "nothing but the values"):
                    obs = None
                elif kind == "empty":
                    obs = []
                else:
                    obs, K, fam = breaks(s, "o", N, kind, 0)
                keep = s.unchanged("arguments unchanged", *[x for x in (fx, obs) if isinstance(x, (Arr, SList))])
                f = w.get("src.numerics.utilities", "my_trapz")

                def post(r):
                    keep()
                    def want(i):
                        return trapz_spec(lambda k: fx.get((P(k),) + tuple(i)), N, step)
                    s.arr_eq("composite sum", r, sh, want)
                if kind == "nothing but the values":
                    step = ONE
                    s.explore(lambda: f(fx), post)
                else:
                    step = poly(dx)
                    s.explore(lambda: f(fx, dx, obs), post)
