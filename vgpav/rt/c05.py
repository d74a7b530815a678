from .energy1d import gen, run  # noqa: F401


def check(c):
    run(c, "OU", lambda x, t: -t * x, lambda x, t: -t + 0 * x, lambda x, t: 0 * x, lambda x: -x)
