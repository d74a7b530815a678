"""Double-well energy: f(x) = 4 x (theta - x^2)."""
from . import energy1d
from .base import mul, T


def contracts(J):
    energy1d.energy(J, "src.dynamics.double_well", "DoubleWell",
                    lambda x, th: T.scale(mul(x, th - mul(x, x)), 4), False)
