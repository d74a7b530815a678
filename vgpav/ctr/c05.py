"""Ornstein-Uhlenbeck energy: f(x) = -theta x."""
from . import energy1d
from .base import mul, neg


def contracts(J):
    energy1d.energy(J, "src.dynamics.ornstein_uhlenbeck", "OrnsteinUhlenbeck",
                    lambda x, th: neg(mul(th, x)), True)
