"""P10: stress classes."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from py_fatigue.mean_stress import MeanStress
from py_fatigue.stress_range import StressRange
from py_fatigue.utils import calc_bin_edges, calc_full_cycles
from py_fatigue.utils import calc_half_cycles, bin_upper_bound

from pbt import gen
from pbt.core import check, floats, observing, rejects, same, subtest

P = "P10"
TOL = 2.1e-5  # edges and values are rounded to five decimals
CLASSES = {"mean": MeanStress, "range": StressRange}


def number_of_cycles():
    return st.one_of(
        st.sampled_from([0.5, 1.0, 1.0, 2.0, 3.5]),
        st.integers(0, 20).map(lambda k: k / 2),
        st.sampled_from([0.25, 1.25, 2.75]),
    )


@st.composite
def stresses(draw, full=True):
    width = draw(st.sampled_from([0.05, 0.1, 0.25, 0.3, 0.5, 1, 2.0, 7.5,
                                  10, 33.3]))
    lb = draw(st.one_of(st.none(), gen.grid(-50, 20, 0.25),
                        st.sampled_from([0.2, -0.1, 5])))
    base = lb if lb is not None else 0.0
    value = st.one_of(
        # on an edge, in the middle, anywhere
        st.integers(0, 40).map(lambda k: base + k * width),
        st.integers(0, 40).map(lambda k: base + (k + 0.5) * width),
        gen.floats(0, 40).map(lambda k: base + k * width),
        # beside an edge
        st.tuples(
            st.integers(1, 40),
            st.sampled_from([3e-5, 4.5e-5, 1e-4, 1e-3, -3e-5, -4.5e-5, -1e-4,
                             -1e-3]),
        ).map(lambda t: base + t[0] * width + t[1]),
    )
    n = draw(st.one_of(*[st.integers(1, 10)] * 9, st.integers(20, 50)))
    values = [draw(value) for _ in range(n)]
    count = [draw(number_of_cycles()) for _ in range(n)]
    if full and not any(c >= 1 for c in count):
        count[draw(st.integers(0, n - 1))] += 1
    ub = None
    if draw(st.integers(0, 4)) == 0:
        ub = max(values) + draw(gen.floats(0, 5)) * width
    if lb is not None and draw(st.booleans()):
        lb = int(lb) if lb == int(lb) else lb
    return {
        "kind": draw(st.sampled_from(sorted(CLASSES))),
        "values": values,
        "count": count,
        "width": width,
        "lb": lb,
        "ub": ub,
        "lists": draw(st.booleans()),
        "layout": draw(st.sampled_from(gen.LAYOUTS)),
    }


def build(case):
    def wrap(values):
        return (list(values) if case["lists"] else
                gen.laid_out(values, case["layout"]))

    return CLASSES[case["kind"]](
        _counts=wrap(case["count"]),
        _values=wrap(case["values"]),
        bin_width=case["width"],
        _bin_lb=case["lb"],
        _bin_ub=case["ub"],
    )


def full_of(values, count):
    return [v for v, c in zip(values, count) for _ in range(int(c))]


def half_of(values, count):
    return [v for v, c in zip(values, count) if c % 1 == 0.5]


@subtest(
    P,
    "full and half cycles",
    lambda: stresses(full=False),
    "a full or a half cycle",
    quick=1500,
)
def parts(case):
    with observing("stress class"):
        obj = build(case)
    full = full_of(case["values"], case["count"])
    half = half_of(case["values"], case["count"])
    same(sorted(floats(obj.full, "full cycles")), sorted(full),
         "full cycles", 0)
    same(sorted(floats(obj.half, "half cycles")), sorted(half),
         "half cycles", 0)
    layout = case["layout"]
    values = gen.laid_out(case["values"], layout)
    count = gen.laid_out(case["count"], layout)
    same(calc_full_cycles(values, count), full, "full cycles of arrays", 0)
    same(calc_half_cycles(values, count), half, "half cycles of arrays", 0)
    same(obj.values, case["values"], "values", 0)
    same(obj.counts, case["count"], "counts", 0)
    out = set()
    if full:
        out.add("full")
    if half:
        out.add("half")
    if any(c > 1 and c % 1 == 0.5 for c in case["count"]):
        out.add("full and half in one entry")
    if any(c % 1 in (0.25, 0.75) for c in case["count"]):
        out.add("other fractions")
    return out


@subtest(P, "bins", stresses, "every case (a full cycle at least)",
         quick=2500)
def bins(case):
    obj = build(case)
    width = case["width"]
    full = floats(obj.full, "full cycles").tolist()
    edges = floats(obj.bin_edges, "edges").tolist()
    check(len(edges) >= 2, f"no bin, edges {edges}")
    lb = case["lb"]
    out = {case["kind"], "bound given" if lb is not None else "derived"}
    if lb is None:
        # centers are multiples of the width, and the first bin contains
        # the smallest value
        lb = floats([obj.bin_lb], "lower bound")[0]
        low = min(case["values"])
        check(-1e-9 <= (low - lb) / width <= 1 + 1e-9,
              f"smallest value {low} is not in the first bin from {lb}")
        k = lb / width + 0.5
        check(abs(k - round(k)) < 1e-6,
              f"first center {lb + width / 2} is no multiple of {width}")
    for i, e in enumerate(edges):
        check(abs(e - (lb + i * width)) <= TOL,
              f"edge {i} is {e} instead of {lb + i * width}")
    top = max(full)
    want = max(top, case["ub"] if case["ub"] is not None else top)
    check(edges[-1] >= want - TOL, f"last edge {edges[-1]}, but stresses "
          f"up to {want}")
    check(edges[-1] <= max(want, lb) + 2 * width + TOL,
          f"last edge {edges[-1]} far above {want}")
    centers = floats(obj.bin_centers, "centers").tolist()
    same(centers, [lb + (i + 0.5) * width for i in range(len(edges) - 1)],
         "bin centers", 0, TOL)
    with observing("bin indices"):
        idx = [int(i) for i in np.asarray(obj.bins_idx)]
    check(len(idx) == len(full), f"{len(idx)} bins for {len(full)} cycles")
    binned = floats(obj.binned_values, "binned values").tolist()
    check(len(binned) == len(full), "binned values")
    seen = {}
    for v, i, b in zip(full, idx, binned):
        check(0 <= i < len(centers), f"cycle {v} in bin {i} of "
              f"{len(centers)}")
        check(edges[i] - TOL <= v <= edges[i + 1] + TOL,
              f"cycle {v} in bin {i} from {edges[i]} to {edges[i + 1]}")
        check(abs(b - centers[i]) <= 1e-9 * max(1, abs(b)),
              f"cycle {v} binned as {b} in bin {i} with center "
              f"{centers[i]}")
        check(seen.setdefault(v, i) == i, f"cycle {v} in bins {i} and "
              f"{seen[v]}")
        if min(abs(v - edges[i]), abs(v - edges[i + 1])) < 1e-9:
            out.add("on an edge")
    if len(set(idx)) > 1:
        out.add("several bins")
    return out


def everything(obj):
    with observing("results"):
        return {
            name: np.asarray(getattr(obj, name), float).tolist()
            for name in ("values", "counts", "full", "half", "bin_edges",
                         "bin_centers", "bins_idx", "binned_values")
        }


@subtest(
    P,
    "set later",
    lambda: st.tuples(
        stresses(), stresses(),
        st.permutations(["values", "counts", "bin_width", "bin_lb",
                         "bin_ub"]),
        st.booleans(),
    ),
    "every case",
    quick=500,
)
def set_later(case):
    old, new, order, look = case
    new = dict(new, kind=old["kind"])
    if new["lb"] is None:
        new["lb"] = min(new["values"]) - new["width"] / 4
    if new["ub"] is None:
        new["ub"] = max(new["values"] + [new["lb"]]) + new["width"]
    obj = build(old)
    if look:
        everything(obj)
    values = {"values": np.array(new["values"]),
              "counts": np.array(new["count"]), "bin_width": new["width"],
              "bin_lb": new["lb"], "bin_ub": new["ub"]}
    for name in order:
        setattr(obj, name, values[name])
    check(obj.bin_lb == new["lb"] and obj.bin_ub == new["ub"],
          "bounds are not those set")
    got, want = everything(obj), everything(build(new))
    for name, val in want.items():
        check(got[name] == val, f"{name} after setting: {got[name][:12]} "
              f"instead of {val[:12]}")
    return {"used before" if look else "not used before"}


@subtest(
    P,
    "large counts",
    lambda: st.tuples(
        stresses(),
        st.lists(
            st.sampled_from([127.5, 128, 130, 255, 256.5, 300, 32767,
                             32768.5, 40000, 65535, 65536, 70000.5]),
            min_size=1, max_size=2,
        ),
    ),
    "every case",
    quick=60,
    weight=30,
)
def large_counts(case):
    case, many = dict(case[0]), case[1]
    case["count"] = (many + case["count"])[: len(case["count"])]
    return parts(case) | bins(case)


@subtest(
    P,
    "edges",
    lambda: st.fixed_dictionaries(
        {
            "lb": st.one_of(gen.grid(-50, 50, 0.25), gen.floats(-50, 50)),
            "width": st.sampled_from([0.05, 0.1, 0.25, 0.3, 1, 2.5, 10]),
            "k": st.one_of(st.integers(0, 300).map(float),
                           gen.floats(0.001, 300)),
        }
    ),
    "every case",
    quick=1200,
)
def edges(case):
    lb, width = case["lb"], case["width"]
    top = lb + case["k"] * width
    ub = floats([bin_upper_bound(lb, width, top)], "upper bound")[0]
    check(ub >= top - 1e-9 * max(1, abs(top)), f"upper bound {ub} of {top}")
    check(ub < top + width * (1 + 1e-9), f"upper bound {ub} of {top}")
    k = (ub - lb) / width
    check(abs(k - round(k)) < 1e-6, f"{k} bins up to the upper bound")
    got = floats(calc_bin_edges(lb, top, width), "edges")
    want = [lb + i * width for i in range(len(got))]
    same(got, want, "edges", 0, TOL)
    check(got[-1] >= top - TOL, f"edges end at {got[-1]} before {top}")
    check(got[-1] <= top + 2 * width + TOL, f"edges end at {got[-1]}, "
          f"for values up to {top}")
    check(got[-1] < math.inf, "edges")
    return {"whole bins" if case["k"] == int(case["k"]) else "part of a bin"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "case": stresses(),
            "what": st.sampled_from(["no values", "no counts", "nothing",
                                     "more values", "more counts"]),
        }
    ),
    "every case",
    quick=200,
)
def rejection(case):
    new, what = dict(case["case"]), case["what"]
    if what in ("no values", "nothing"):
        new["values"] = []
    if what in ("no counts", "nothing"):
        new["count"] = []
    if what == "more values":
        new["values"] = new["values"] + [1.0]
    if what == "more counts":
        new["count"] = new["count"] + [1.0]
    rejects(what, ValueError, build, new)
    return {what, new["kind"]}
