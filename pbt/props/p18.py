"""P18: crack geometries."""

from __future__ import annotations

import math

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount, ParisCurve
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.damage.crack_growth import get_geometry_factor
from py_fatigue.utils import to_numba_dict

from pbt import counts, cracks, gen, turns
from pbt.core import call, check, fail, floats, observing, rejects, same
from pbt.core import same_number, subtest

P = "P18"
RTOL = 1e-8


def one_cycle():
    """A count of one small cycle, which does not grow the crack."""
    return CycleCount.from_timeseries(
        np.array([0.0, 1.0, 0.0]), timestamp=counts.stamp(0))


def curve():
    return ParisCurve(slope=3.0, intercept=1e-30, threshold=0)


@st.composite
def ring_cases(draw):
    spec = draw(cracks.cylinder())
    return {
        "geo": spec,
        "depths": draw(st.lists(
            st.one_of(gen.floats(0.001, 1.2), gen.grid(0.25, 1.5, 0.25),
                      st.sampled_from([1.0, 0.9999999, 1.0000001, 1.0002,
                                       0.999])),
            min_size=1, max_size=5)),
    }


@subtest(P, "factor of a cylinder", ring_cases, "every case", quick=2000,
         weight=2)
def ring(case):
    spec = case["geo"]
    geo = cracks.make(spec)
    check(str(geo._id) == "HOL_CYL_01", f"identifier {geo._id}")
    for key in cracks.KEYS:
        check(getattr(geo, key) == spec[key],
              f"{key} is {getattr(geo, key)!r}, given {spec[key]!r}")
    grown = call("growth", get_crack_growth, one_cycle(), curve(), geo)
    got = floats(grown.geometry_factor, "geometry factor")
    check(len(got) >= 1, "no geometry factor")
    same_number(got[0], cracks.factor(spec, spec["initial_depth"]),
                f"factor at depth {spec['initial_depth']}", RTOL)
    data = to_numba_dict(dict(geo.__dict__))
    out = {"initial depth"}
    for part in case["depths"]:
        depth = part * spec["thickness"]
        got = call("factor", get_geometry_factor, depth, "HOL_CYL_01", data)
        same_number(got, cracks.factor(spec, depth),
                    f"factor at depth {depth}", RTOL)
        out.add("through the wall" if depth >= spec["thickness"]
                else "within the wall")
    if spec["width_to_depth_ratio"] == 2.0:
        out.add("default ratio")
    return out


@subtest(
    P,
    "factor of a surface",
    lambda: st.tuples(cracks.surface(), gen.floats(0.001, 1e4)),
    "every case",
    quick=200,
    weight=2,
)
def flat(case):
    spec, depth = case
    geo = cracks.make(spec)
    check(str(geo._id) == "INF_SUR_00", f"identifier {geo._id}")
    same_number(geo.initial_depth, spec["initial_depth"], "depth", 0)
    grown = call("growth", get_crack_growth, one_cycle(), curve(), geo)
    for val in floats(grown.geometry_factor, "geometry factor"):
        same_number(val, 1.0, "factor", 0)
    got = call("factor", get_geometry_factor, depth, "INF_SUR_00",
               to_numba_dict(dict(geo.__dict__)))
    same_number(got, 1.0, "factor", 0)
    return {"surface"}


@st.composite
def bad_cases(draw):
    spec = draw(cracks.cylinder())
    what = draw(st.sampled_from(
        ["initial_depth", "outer_diameter", "thickness", "height",
         "width_to_depth_ratio", "thick", "thick", "deep", "deep",
         "position", "surface", "full depth", "full diameter",
         "full height"]))
    bad = draw(st.sampled_from([0, 0.0, -1, -1e-9, math.nan]))
    if what in cracks.KEYS:
        spec[what] = bad
    elif what == "thick":
        # at least the radius; the crack stays within the wall
        spec["thickness"] = spec["outer_diameter"] / 2 * draw(
            st.sampled_from([1.0, 1.0, 1.0000001, 1.1, 2.0, 10.0]))
    elif what == "deep":
        spec["initial_depth"] = spec["thickness"] * draw(
            st.sampled_from([1.0, 1.0, 1.0000001, 1.1, 2.0]))
    elif what == "position":
        spec["crack_position"] = draw(
            st.sampled_from(["", "inner", "External", "external ", "outer",
                             "EXTERNAL", "int"]))
    elif what == "surface":
        spec = {"kind": "surface", "initial_depth": bad}
    else:
        spec["kind"] = "full"
        spec[{"depth": "initial_depth", "diameter": "outer_diameter",
              "height": "height"}[what.split()[1]]] = bad
    return {"spec": spec, "what": what}


@subtest(P, "rejection", bad_cases, "every case", quick=600)
def rejection(case):
    # an invalid value may hide the values validated before it
    rejects(f"{case['what']} {case['spec']}", (ValueError, KeyError),
            cracks.make, case["spec"])
    return {case["what"]}


@st.composite
def unsupported_cases(draw):
    spec = draw(cracks.cylinder())
    kind = draw(st.sampled_from(["internal", "full"]))
    if kind == "full":
        spec["kind"] = "full"
    else:
        spec["crack_position"] = "internal"
    return {"spec": spec, "frame": draw(st.booleans()),
            "express": draw(st.booleans()),
            "draw": draw(st.sampled_from(
                [None, None, "none", "fig", "ax"] if kind == "internal"
                else [None]))}


@subtest(P, "refused geometries", unsupported_cases, "every case", quick=150)
def unsupported(case):
    geo = cracks.make(case["spec"])
    if case["draw"]:
        try:
            given = {"none": {}, "fig": {"fig": plt.figure()},
                     "ax": {"ax": plt.subplots()[1]}}[case["draw"]]
            rejects("drawing of an internal crack", NotImplementedError,
                    geo.plot, **given)
        finally:
            plt.close("all")
        return {"drawing"}
    cc = one_cycle()
    if case["frame"]:
        df = cc.to_df()
        rejects("unsupported geometry", ValueError, df.cg.calc_growth,
                curve(), geo, case["express"])
    else:
        rejects("unsupported geometry", ValueError, get_crack_growth, cc,
                curve(), geo, case["express"])
    return {case["spec"]["kind"], "frame" if case["frame"] else "count"}


@subtest(
    P,
    "drawing",
    lambda: st.tuples(
        cracks.cylinder(), st.sampled_from([None, "fig", "both"])),
    "every case",
    quick=120,
    weight=20,
)
def drawing(case):
    spec, given = case
    geo = cracks.make(spec)
    kwargs = {}
    if given:
        fig, axes = plt.subplots()
        kwargs["fig"] = fig
        if given == "both":
            kwargs["ax"] = axes
    try:
        fig2, axes2 = geo.plot(**kwargs)
        if given == "both":
            check(axes2 is axes and fig2 is fig, "not drawn where asked")
        with observing("lines"):
            lines = [np.asarray(ln.get_xydata(), float)
                     for ln in axes2.get_lines()]
    finally:
        plt.close("all")
    r_o = spec["outer_diameter"] / 2
    r_i = r_o - spec["thickness"]
    tip = r_o - spec["initial_depth"]
    found = set()
    for xy in lines:
        rad = np.hypot(xy[:, 0], xy[:, 1])
        turn = np.ptp(np.unwrap(np.arctan2(xy[:, 1], xy[:, 0])))
        ring_ = turn > 6.2
        if ring_ and np.allclose(rad, r_o, rtol=1e-9):
            found.add("outer circle")
        elif ring_ and np.allclose(rad, r_i, rtol=1e-9):
            found.add("inner circle")
        else:
            found.add("crack")
            # hundred points along the front: the tip is between two
            low = rad.min()
            check(tip * (1 - 1e-9) - 1e-12 * r_o <= low
                  <= tip + 0.01 * spec["initial_depth"],
                  f"deepest drawn point at radius {low}, tip at {tip}")
            check(rad.max() <= r_o * (1 + 1e-9),
                  "crack is drawn outside the cylinder")
            alpha = (spec["width_to_depth_ratio"] * spec["initial_depth"]
                     / r_o)
            width = xy[:, 1].max()
            want = r_o * math.sin(alpha)
            # the front may be wider than its mouth
            check(width >= want * (1 - 1e-9), "crack mouth too narrow")
            same_number(xy[:, 1].min(), -width, "drawn crack symmetry",
                        1e-9, 1e-9 * r_o)
            check(math.dist(xy[0], xy[-1]) <= 1e-6 * r_o,
                  "the outline of the crack is not closed")
    check(found == {"outer circle", "inner circle", "crack"},
          f"drawn: {sorted(found)}")
    return {"drawing", f"given {given}"}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "factor of a cylinder", turns.of_geometry("geo"), quick=750)
