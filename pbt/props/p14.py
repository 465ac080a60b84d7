"""P14: damage equivalent stress and moment."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import SNCurve
from py_fatigue.damage.stress_life import calc_dem, calc_des, calc_pm
from py_fatigue.damage.stress_life import get_dem, get_des

from pbt import counts, gen, turns
from pbt.core import call, check, close, floats, number, rejects
from pbt.core import same_number, subtest
from pbt.props.p13 import number_of_cycles

P = "P14"


@st.composite
def parameters(draw):
    outer = draw(gen.grid(0.125, 10, 0.125))
    inner = outer * draw(st.sampled_from([0.0, 0.25, 0.5, 0.9, 0.999]))
    return {
        "slope": draw(st.one_of(st.sampled_from([3, 5, 3.0, 4, 5.0, 10]),
                                gen.grid(1, 12, 0.125))),
        "eq": draw(st.sampled_from([None, 1e7, 1e6, 2e6, 1, 123456])),
        "outer": outer,
        "inner": inner,
    }


@st.composite
def plain(draw):
    n = draw(st.integers(1, 8))
    stress = st.one_of(gen.grid(0.25, 400, 0.25), gen.floats(0.001, 2000))
    return {
        "stress": [draw(stress) for _ in range(n)],
        "count": [draw(number_of_cycles()) for _ in range(n)],
        "form": draw(st.sampled_from(["list", "array", "series", "ints",
                                      "scalar"])),
        "times": draw(st.sampled_from([1] * 14 + [9, 40, 300])),
    }


def ref_des(stress, count, slope, eq):
    top = max(stress)
    if top == 0:
        return 0.0
    total = math.fsum(c * (s / top) ** slope for s, c in zip(stress, count))
    return top * (total / eq) ** (1 / slope)


def ref_dem(des, outer, inner):
    """Newton metre for a stress in MPa and radii in metre."""
    ring = math.pi * (outer**4 - inner**4) / 4
    return des * 1e6 * ring / outer


def kwargs_of(par):
    out = {"slope": par["slope"]}
    if par["eq"] is not None:
        out["equivalent_cycles"] = par["eq"]
    return out


@subtest(
    P,
    "arrays",
    lambda: st.tuples(plain(), parameters()),
    "some cycles",
    quick=1500,
)
def arrays(case):
    spec, par = case
    stress = spec["stress"] * spec["times"]
    count = [n + k for k in range(spec["times"]) for n in spec["count"]]
    s, c = stress, count
    form = spec["form"]
    if form == "array":
        s, c = np.array(s), np.array(c)
    elif form == "series":
        s, c = pd.Series(s), pd.Series(c)
    elif form == "ints":
        s = [max(1, int(v)) for v in s]
        c = [int(v) for v in c]
        stress, count = [float(v) for v in s], [float(v) for v in c]
    elif form == "scalar":
        s, c, stress, count = s[0], c[0], stress[:1], count[:1]
    eq = 1e7 if par["eq"] is None else par["eq"]
    want = ref_des(stress, count, par["slope"], eq)
    got = number(calc_des(s, c, **kwargs_of(par)), "DES")
    same_number(got, want, "damage equivalent stress", 1e-9, 1e-200)
    dem = calc_dem(par["outer"], par["inner"], s, c, **kwargs_of(par))
    same_number(dem, ref_dem(want, par["outer"], par["inner"]),
                "damage equivalent moment", 1e-9, 1e-200)
    if not any(count):
        return ()
    return {form, "default cycles" if par["eq"] is None else "cycles given",
            "solid" if par["inner"] == 0 else "ring",
            "one entry" if len(stress) == 1 else "several entries",
            "many entries" if len(stress) > 99 else "few entries"}


@subtest(
    P,
    "same damage",
    lambda: st.tuples(
        plain(), parameters(), gen.grid(8, 16, 0.125)
    ),
    "some cycles",
    quick=300,
)
def same_damage(case):
    spec, par, intercept = case
    stress, count = np.array(spec["stress"]), np.array(spec["count"])
    if not np.any(count):
        return ()
    curve = SNCurve(float(par["slope"]), intercept)
    eq = 1e7 if par["eq"] is None else par["eq"]
    des = number(calc_des(stress, count, **kwargs_of(par)), "DES")
    total = math.fsum(floats(call("damage", calc_pm, stress, count, curve),
                             "damage"))
    other = number(call("damage", calc_pm, des, float(eq), curve), "damage")
    check(close(total, other, 1e-8, 1e-200),
          f"damage {total!r} of the spectrum, {other!r} of the equivalent")
    return {f"{len(stress)} entries"}


@subtest(
    P,
    "interfaces",
    lambda: st.tuples(
        st.one_of(counts.counts(depth=2), counts.counts(depth=2),
                  counts.direct(1e7)),
        parameters(), st.sampled_from(counts.INDEXES)),
    "every case",
    quick=400,
    weight=3,
)
def interfaces(case):
    spec, par, index = case
    cc, _ = counts.make(spec)
    rows = counts.rows_of(cc)
    stress, count = [r[0] for r in rows], [r[2] for r in rows]
    eq = 1e7 if par["eq"] is None else par["eq"]
    want = ref_des(stress, count, par["slope"], eq)
    kwargs = kwargs_of(par)
    same_number(get_des(cc, **kwargs), want, "DES of a count", 1e-9)
    same_number(counts.frame_of(cc, index).miner.des(**kwargs), want, "DES of a dataframe")
    want = ref_dem(want, par["outer"], par["inner"])
    radii = {"outer_radius": par["outer"], "inner_radius": par["inner"]}
    same_number(get_dem(cycle_count=cc, **radii, **kwargs), want,
                "DEM of a count")
    same_number(counts.frame_of(cc, index).miner.dem(**radii, **kwargs), want,
                "DEM of a dataframe")
    return counts.labels_of(spec) | {f"index {index}"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "par": parameters(),
            "what": st.sampled_from(["equal radii", "inner larger",
                                     "length", "length moment", "columns"]),
            "over": st.sampled_from(["arrays", "count", "dataframe"]),
        }
    ),
    "every case",
    quick=200,
)
def rejection(case):
    cc, _ = counts.make(case["cc"])
    par, what, over = case["par"], case["what"], case["over"]
    kwargs = kwargs_of(par)
    if what == "length":
        for wrong in gen.UNEQUAL:
            rejects(f"lists of different length {wrong}", ValueError, calc_des,
                    *wrong, **kwargs)
        return {what}
    if what == "length moment":
        for wrong in gen.UNEQUAL:
            rejects(f"lists of different length {wrong}", ValueError, calc_dem,
                    par["outer"], par["inner"], *wrong, **kwargs)
        return {what}
    if what == "columns":
        rejects("table without counts", AttributeError,
                lambda: pd.DataFrame({"a": [1.0]}).miner)
        return {what}
    inner = par["outer"] * (1 if what == "equal radii" else 1.25)
    if over == "arrays":
        rejects(what, ValueError, calc_dem, par["outer"], inner,
                [1.0, 2.0], [3.0, 4.0], **kwargs)
    elif over == "count":
        rejects(what, ValueError, get_dem, par["outer"], inner, cc, **kwargs)
    else:
        rejects(what, ValueError, lambda: cc.to_df().miner.dem(
            par["outer"], inner, **kwargs))
    return {what, over}


def keeps(got, want):
    """The accessor remembers what it was asked for."""
    for key, value in want.items():
        check(key in got, f"the table does not keep {key}")
        same_number(got[key], value, f"{key} kept by the table", 0)


@subtest(
    P,
    "same table again",
    lambda: st.tuples(
        counts.counts(depth=1),
        st.lists(st.tuples(parameters(), st.booleans()), min_size=2,
                 max_size=5),
        st.sampled_from(counts.INDEXES),
    ),
    "every case",
    quick=300,
    weight=3,
)
def again(case):
    spec, asked, index = case
    cc, _ = counts.make(spec)
    rows = counts.rows_of(cc)
    stress, count = [r[0] for r in rows], [r[2] for r in rows]
    df = counts.frame_of(cc, index)
    for par, moment in asked:
        eq = 1e7 if par["eq"] is None else par["eq"]
        want = ref_des(stress, count, par["slope"], eq)
        kwargs = kwargs_of(par)
        if not moment:
            same_number(df.miner.des(**kwargs), want, "DES of a dataframe")
            keeps(df.miner.des_data, {"slope": par["slope"],
                                      "equivalent_cycles": eq})
            same_number(get_des(cc, **kwargs), want, "DES of a count")
            continue
        want = ref_dem(want, par["outer"], par["inner"])
        radii = {"outer_radius": par["outer"], "inner_radius": par["inner"]}
        same_number(df.miner.dem(**radii, **kwargs), want,
                    "DEM of a dataframe")
        keeps(df.miner.dem_data, {**radii, "slope": par["slope"],
                                  "equivalent_cycles": eq})
        same_number(get_dem(cycle_count=cc, **radii, **kwargs), want,
                    "DEM of a count")
    return {f"{len(asked)} times", f"index {index}"}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "arrays", {
    "slope": turns.part(1, "slope"),
    "cycles": turns.part(1, "eq"),
    "section": turns.changed(1, by=lambda p: dict(
        p, outer=2 * p["outer"], inner=2 * p["inner"])),
    "backwards": turns.changed(0, "stress", by=lambda s: s[::-1]),
    "form": turns.part(0, "form"),
}, quick=750)
turns.in_turn(P, "interfaces", {
    "slope": turns.part(1, "slope"),
    "cycles": turns.part(1, "eq"),
    **turns.of_counts(0),
}, quick=240)
