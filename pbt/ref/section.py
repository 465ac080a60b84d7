"""Net section of a ring with a crack bounded by a circular arc.

Areas and moments are integrated numerically (Gauss-Legendre) over the circular
segments on both sides of the chord at the mouth of the crack.
"""

from __future__ import annotations

import math

import numpy as np

NODES, WEIGHTS = np.polynomial.legendre.leggauss(48)


def segment(radius, angle, x_of):
    """Area and first and second moment of the circular segment with the
    given half-angle; ``x_of(s)`` is the abscissa of the strip at distance s
    from the center."""
    t = 0.5 * angle * (NODES + 1)
    strip = 2 * (radius * np.sin(t)) ** 2 * 0.5 * angle * WEIGHTS
    x = x_of(radius * np.cos(t))
    return (math.fsum(strip), math.fsum(strip * x), math.fsum(strip * x**2))


def crack_shape(depth, outer_diameter, ratio):
    """Half-angle of the mouth and height of the inner segment."""
    r_o = outer_diameter / 2
    alpha = ratio * depth / r_o
    height = depth - 2 * r_o * math.sin(alpha / 2) ** 2
    return alpha, height


def factor(depth, outer_diameter, thickness, ratio):
    """Bending stress near the crack mouth over that of the intact ring."""
    if depth >= thickness:
        return 0.0
    r_o = outer_diameter / 2
    r_i = r_o - thickness
    alpha, height = crack_shape(depth, outer_diameter, ratio)
    half = r_o * math.sin(alpha)
    r_e = (half**2 + height**2) / (2 * height)
    beta = 2 * math.atan2(height, half)
    chord = -r_o * math.cos(alpha)
    center = chord - r_e * math.cos(beta)
    a_1, s_1, i_1 = segment(r_o, alpha, lambda s: -s)
    a_2, s_2, i_2 = segment(r_e, beta, lambda s: center + s)
    a_net = math.pi * (r_o**2 - r_i**2) - a_1 - a_2
    s_net = -s_1 - s_2
    i_ring = math.pi / 4 * (r_o**4 - r_i**4)
    x_net = s_net / a_net
    i_net = i_ring - i_1 - i_2 - a_net * x_net**2
    # a tenth of the height of the section above the mouth
    place = chord + 0.1 * r_o * (1 + math.cos(alpha))
    return (x_net - place) / i_net * i_ring / r_o
