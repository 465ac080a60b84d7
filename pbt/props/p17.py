"""P17: crack growth."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.damage.crack_growth import get_crack_growth

from pbt import counts, cracks, curves, gen, turns
from pbt.core import call, check, close, fail, floats, number, observing
from pbt.core import part, rejects, same_number, subtest

P = "P17"
EDGE = 1e-9  # limits nearer than that are not judged
RTOL = 1e-8


@st.composite
def entry_count(draw, express):
    low = 0.5 if express else 0.0
    return draw(
        st.one_of(
            st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.0, 9.0, 10.0, 11.0, 1.5]),
            st.integers(1, 120).map(float),
            *([st.integers(900, 2500).map(float)] if express else []),
            gen.grid(0.5, 40, 0.5),
            gen.floats(low + 0.01, 60),
        )
    )


@st.composite
def cases(draw, counted=True):
    """Spectrum, curve and geometry such that the crack grows noticeably."""
    geo = draw(st.one_of(cracks.surface(), cracks.cylinder()))
    curve = draw(curves.paris())
    depth = geo["initial_depth"]
    unit = cracks.factor(geo, depth) * math.sqrt(math.pi * depth)
    sifs = [min(k, 1e9) for k in draw(curves.sifs_for(curve, 1, 10))]
    brink = curve["crit"] is not None and draw(st.integers(0, 5)) == 0
    if brink:
        # hardly any growth, and the last cycle just below or above critical
        crit = curve["crit"]
        sifs = [k for k in sifs if k < crit] + [
            crit * draw(st.sampled_from([0.9995, 0.999999, 1.0005, 1.0001]))]
    stress = [k / unit for k in sifs]
    # growth of a single cycle at one of the stress intensities
    part = draw(st.one_of(
        st.sampled_from([1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.3, 0.9, 4.0,
                         8.9, 9.1, 30.0]),
        gen.floats(1e-4, 2.0)))
    if brink:
        part = draw(st.sampled_from([1e-12, 1e-9]))
    level = min(max(draw(st.sampled_from(sifs)), 1.0), 3000.0)
    scale = part * depth / curves.on_branch(curve, level)
    curve["c"] = [c * scale for c in curve["c"]]
    express = draw(st.booleans())
    kind = draw(st.sampled_from(["single", "clustered", "clustered"]))
    if kind == "single":
        count = [draw(st.sampled_from([1.0, 1.0, 0.5, 0.25]))
                 for _ in stress]
    else:
        count = [draw(entry_count(express)) for _ in stress]
    if draw(st.integers(0, 3)) == 0:
        # many times the same history
        times = draw(st.integers(2, 8))
        stress, count = stress * times, count * times
    return {"geo": geo, "curve": curve, "stress": stress, "count": count,
            "express": express}


def make_count(case):
    return CycleCount(
        count_cycle=np.array(case["count"], float),
        stress_range=np.array(case["stress"], float),
        mean_stress=np.zeros(len(case["stress"])),
        timestamp=counts.stamp(0),
    )


def blocks_of(case, stress, count, what):
    """Number of blocks per entry; every entry is applied in full."""
    sizes, i = [], 0
    clustered = max(case["count"]) > 1
    check(len(stress) == len(count), f"{what}: stresses and cycles")
    for s, c in zip(case["stress"], case["count"]):
        parts = []
        while i < len(count) and math.fsum(parts) < c * (1 - 1e-12):
            check(close(stress[i], s, 1e-12),
                  f"{what}: block {i} with range {stress[i]} instead of {s}")
            parts.append(count[i])
            i += 1
        check(close(math.fsum(parts), c, 1e-9),
              f"{what}: {math.fsum(parts)} of {c} cycles with range {s} are "
              f"applied")
        check(all(p > 0 for p in parts), f"{what}: empty block")
        whole = math.floor(c)
        if not clustered or c < 1:
            check(len(parts) == 1, f"{what}: {c} cycles in {len(parts)}")
        elif not case["express"]:
            ones = sum(close(p, 1.0, 1e-12) for p in parts)
            check(whole <= ones and len(parts) <= whole + 1,
                  f"{what}: {c} cycles in blocks {parts[:20]}")
        else:
            check(len(parts) <= whole + 1,
                  f"{what}: more blocks than cycles in express mode")
        sizes.append(len(parts))
    check(i == len(count), f"{what}: {len(count) - i} blocks too many")
    return sizes


def step(case, depth, stress, count):
    """What may happen in a block: (stops, goes on), depths after it."""
    geo, curve = case["geo"], case["curve"]
    sif = None
    stops = goes = False
    after = []
    ring = geo["kind"] == "ring"
    if depth > 1e100:
        return True, True, [None]  # numbers overflow sooner or later
    if ring and depth >= geo["thickness"] * (1 + EDGE):
        return True, False, []
    if ring and depth >= geo["thickness"] * (1 - EDGE):
        return True, True, [None]
    sif = cracks.factor(geo, depth) * stress * math.sqrt(math.pi * depth)
    crit = math.inf if curve["crit"] is None else curve["crit"]
    if sif >= crit * (1 + EDGE):
        return True, False, []
    if sif >= crit * (1 - EDGE):
        stops = True
    thr = curve["thr"]
    if sif < thr * (1 + EDGE):
        goes = True
        after.append(depth)
    if sif >= thr * (1 - EDGE):
        new = depth + count * curves.on_branch(curve, sif)
        if new > depth * 10 * (1 - EDGE):
            stops = True
        if new <= depth * 10 * (1 + EDGE):
            goes = True
            after.append(new)
    return stops, goes, after


def judge(case, res, what):
    """Result of the growth analysis; returns block sizes and labels."""
    depth = floats(res.crack_depth, f"{what}: depth").tolist()
    sif = floats(res.sif, f"{what}: stress intensity").tolist()
    fac = floats(res.geometry_factor, f"{what}: geometry factor").tolist()
    stress = floats(res.stress_range, f"{what}: stress").tolist()
    count = floats(res.count_cycle, f"{what}: cycles").tolist()
    failure = bool(res.failure)
    sizes = blocks_of(case, stress, count, what)
    n = len(depth)
    check(n == len(sif) == len(fac),
          f"{what}: {n} depths, {len(sif)} intensities, {len(fac)} factors")
    check(n < len(stress) if failure else n == len(stress),
          f"{what}: {n} of {len(stress)} blocks, failure {failure}")
    geo = case["geo"]
    out = {geo["kind"]}
    now = [geo["initial_depth"]]
    for i in range(n):
        d = depth[i]
        check(any(v is None or close(d, v, RTOL) for v in now),
              f"{what}: depth {d!r} before block {i}, expected {now}")
        if now == [None]:
            return sizes, out
        y = cracks.factor(geo, d)
        same_number(fac[i], y, f"{what}: factor {i}", RTOL)
        want = y * stress[i] * math.sqrt(math.pi * d)
        same_number(sif[i], want, f"{what}: stress intensity {i}", RTOL)
        stops, goes, now = step(case, d, stress[i], count[i])
        check(goes, f"{what}: block {i} (depth {d}, range {stress[i]}, "
              f"{count[i]} cycles) does not stop the growth")
        if now == [d]:
            out.add("below threshold")
        elif len(now) == 1 and now[0] and now[0] > d * 1.01:
            out.add("growth over 1 %")
        elif len(now) == 1 and now[0] and now[0] > d:
            out.add("growth")
    if failure:
        ends = [step(case, d, stress[n], count[n]) for d in now
                if d is not None]
        check(not ends or any(e[0] for e in ends),
              f"{what}: failure in block {n} without reason, depth {now}, "
              f"range {stress[n]}, {count[n]} cycles")
        out.add("failure")
        for d in now:
            if geo["kind"] == "ring" and d and d >= geo["thickness"]:
                out.add("through the wall")
        if n == 0:
            out.add("immediate failure")
    same_number(res.final_cycles, math.fsum(count[:n]),
                f"{what}: final cycles", 1e-9)
    return sizes, out


def labels(case):
    out = {"express" if case["express"] else "cycle by cycle",
           f"{len(case['curve']['m'])} branches"}
    if max(case["count"]) > 1:
        out.add("clustered")
    if any(c % 1 for c in case["count"] if c > 1):
        out.add("fractional counts")
    return out


@subtest(P, "cycle-counts", cases, "a crack that grows or fails", quick=1500,
         weight=6)
def of_count(case):
    curve = curves.make_paris(case["curve"])
    geo = cracks.make(case["geo"])
    cc = make_count(case)
    res = call("growth", get_crack_growth, cc, curve, geo, case["express"])
    _, out = judge(case, res, "growth")
    if not out & {"growth", "growth over 1 %", "failure"}:
        return ()
    return out | labels(case)


@subtest(
    P,
    "dataframe",
    lambda: st.tuples(cases(), st.sampled_from(counts.INDEXES)),
    "a crack that grows or fails",
    quick=600,
    weight=10,
)
def of_frame(case):
    case, index = case
    curve = curves.make_paris(case["curve"])
    geo = cracks.make(case["geo"])
    cc = make_count(case)
    res = call("growth", get_crack_growth, cc, curve, geo, case["express"])
    sizes, out = judge(case, res, "growth")
    df = counts.frame_of(cc, index)
    got = call("dataframe growth", df.cg.calc_growth, curve, geo,
               case["express"])
    check(isinstance(got, pd.DataFrame) and len(got) == len(case["stress"]),
          "not a dataframe with a row per entry")
    n = len(floats(res.crack_depth, "crack depth"))
    last = np.cumsum(sizes) - 1
    cumul = np.cumsum(res.count_cycle[:n])
    for col, values in (("crack_depth", res.crack_depth), ("sif", res.sif),
                        ("geometry_factor", res.geometry_factor),
                        ("cumul_cycle", cumul)):
        check(col in got.columns, f"no column {col}")
        have = floats(got[col].values, col)
        for row, i in enumerate(last):
            want = float(values[i]) if i < n else math.nan
            if not close(float(have[row]), want, 1e-9):
                fail(f"{col} of row {row}: got {have[row]}, expected {want}")
    for what, where in (("table", got), ("accessor", df.cg)):
        same_number(getattr(where, "final_cycles", None),
                    number(res.final_cycles, "cycles"),
                    f"final cycles of the {what}", 1e-9)
        check(getattr(where, "cg_curve", None) == curve,
              f"the {what} does not keep the curve")
        check(getattr(where, "crack_geometry", None) == geo,
              f"the {what} does not keep the geometry")
    for col, want in (("stress_range", case["stress"]),
                      ("count_cycle", case["count"])):
        have = floats(part(got, col), col).tolist()
        check(have == want, f"column {col} is changed")
    if not out & {"growth", "growth over 1 %", "failure"}:
        return ()
    return out | labels(case) | {f"index {index}"}


@st.composite
def rate_cases(draw):
    case = draw(cases())
    case["at"] = [
        [draw(gen.floats(0.2, 3.0)), draw(gen.floats(0.3, 2.0))]
        for _ in range(draw(st.integers(1, 5)))
    ]
    return case


@subtest(P, "growth rate of a state", rate_cases, "every case", quick=500,
         weight=6)
def rate(case):
    geo, curve = case["geo"], case["curve"]
    res = call("growth", get_crack_growth, make_count(case),
               curves.make_paris(curve), cracks.make(geo), case["express"])
    out = set()
    for i, (fs, fd) in enumerate(case["at"]):
        stress = case["stress"][i % len(case["stress"])] * fs
        depth = geo["initial_depth"] * fd
        if geo["kind"] == "ring" and abs(
                depth / geo["thickness"] - 1) < EDGE:
            continue
        got = call("rate", res.calc_growth_rate, stress, depth)
        with observing("rate"):
            check(len(got) == 3, "not rate, stress intensity and factor")
        y = cracks.factor(geo, depth)
        sif = y * stress * math.sqrt(math.pi * depth)
        same_number(part(got, 2), y, "factor", RTOL)
        same_number(part(got, 1), sif, "stress intensity", RTOL)
        edges = [curve["thr"], curve["crit"] or 0.0]
        if any(e and abs(sif / e - 1) < EDGE for e in edges):
            continue
        want = curves.ref_rate(curve, sif)
        same_number(part(got, 0), want, f"growth rate at {sif}", RTOL)
        out.add("zero" if want == 0 else "infinite" if want == math.inf
                else "finite")
    return out


@subtest(
    P,
    "rejection",
    lambda: st.tuples(
        cases(), st.sampled_from(["count_cycle", "mean_stress",
                                  "stress_range", "twice", "negative"])),
    "every case",
    quick=120,
    weight=6,
)
def rejection(case):
    case, what = case
    curve = curves.make_paris(case["curve"])
    geo = cracks.make(case["geo"])
    if what == "negative":
        for least in (-1e-3, -0.5, -100.0):
            wrong = dict(case, stress=case["stress"][:-1] + [least])
            rejects("negative stress range", AssertionError,
                    get_crack_growth, make_count(wrong), curve, geo)
            rejects("negative stress range", AssertionError,
                    make_count(wrong).to_df().cg.calc_growth, curve, geo)
        return {what}
    df = make_count(case).to_df()
    if what == "twice":
        call("growth", df.cg.calc_growth, curve, geo, case["express"])
    else:
        df = df.drop(columns=[what])
    rejects(what, AttributeError, df.cg.calc_growth, curve, geo)
    return {what}


@subtest(
    P,
    "same objects again",
    lambda: st.tuples(
        cases(),
        st.lists(
            st.tuples(st.booleans(), st.sampled_from([0.5, 1.0, 1.25]),
                      st.booleans()),
            min_size=1, max_size=3),
    ),
    "a crack that grows or fails",
    quick=300,
    weight=20,
)
def again(case):
    """One curve and one geometry for several histories."""
    first, changes = case
    curve = curves.make_paris(first["curve"])
    geo = cracks.make(first["geo"])
    out = set()
    for express, factor, backwards in [(False, 1.0, False)] + changes + [
            (False, 1.0, False)]:
        one = dict(first, express=express != first["express"],
                   stress=[factor * s for s in first["stress"]])
        if one["express"] and min(one["count"]) < 1 < max(one["count"]):
            one["express"] = False  # not defined for parts of a cycle
        if backwards:
            one["stress"] = one["stress"][::-1]
        res = call("growth", get_crack_growth, make_count(one), curve, geo,
                   one["express"])
        out |= judge(one, res, "growth")[1]
    if not out & {"growth", "growth over 1 %", "failure"}:
        return ()
    return out


# ----------------------------------------------------------- one after another
turns.in_turn(P, "cycle-counts", {
    "express": turns.changed("express", by=lambda v: not v),
    **turns.of_curve(turns.PARIS, "curve"),
    **turns.of_geometry("geo"),
}, quick=360)
