"""Crack geometries: strategies and construction."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from py_fatigue.geometry import InfiniteSurface
from py_fatigue.geometry.cylinder import Cylinder, HollowCylinder

from pbt import gen
from pbt.ref import section

KEYS = ("initial_depth", "outer_diameter", "thickness", "height",
        "crack_position", "width_to_depth_ratio")


@st.composite
def cylinder(draw):
    """A hollow cylinder whose crack has a mouth and a bottom at any depth
    within the wall."""
    r_o = draw(st.one_of(gen.grid(5, 200, 0.5), gen.floats(5, 5000)))
    thickness = r_o * draw(
        st.one_of(gen.grid(0.015625, 0.875, 0.015625),
                  gen.floats(0.005, 0.95)))
    most = min(20.0, 1.4 * r_o / thickness, math.sqrt(1.8 * r_o / thickness))
    ratio = draw(
        st.one_of(st.just(2.0 if most >= 2 else most / 2),
                  gen.floats(0.05, 1.0).map(lambda u: u * most)))
    depth = thickness * draw(
        st.one_of(gen.grid(0.03125, 0.9375, 0.03125),
                  gen.floats(0.001, 0.999), gen.floats(1e-5, 1e-3)))
    return {
        "kind": "ring",
        "initial_depth": depth,
        "outer_diameter": 2 * r_o,
        "thickness": thickness,
        "height": draw(gen.grid(0.5, 1000, 0.5)),
        "crack_position": "external",
        "width_to_depth_ratio": ratio,
    }


def surface():
    return st.one_of(gen.grid(0.25, 20, 0.25), gen.floats(0.01, 50)).map(
        lambda d: {"kind": "surface", "initial_depth": d})


def make(spec):
    if spec["kind"] == "surface":
        return InfiniteSurface(initial_depth=spec["initial_depth"])
    if spec["kind"] == "full":
        return Cylinder(initial_depth=spec["initial_depth"],
                        diameter=spec["outer_diameter"],
                        height=spec["height"])
    kwargs = {k: spec[k] for k in KEYS if k in spec}
    if kwargs.get("width_to_depth_ratio") == 2.0:
        del kwargs["width_to_depth_ratio"]  # the default
    return HollowCylinder(**kwargs)


def factor(spec, depth):
    if spec["kind"] == "surface":
        return 1.0
    return section.factor(depth, spec["outer_diameter"], spec["thickness"],
                          spec["width_to_depth_ratio"])
