from .energy1d import gen, run  # noqa: F401


def check(c):
    run(c, "DW", lambda x, t: 4 * x * (t - x * x), lambda x, t: 4 * t - 12 * x * x,
        lambda x, t: -24 * x, lambda x: 4 * x)
