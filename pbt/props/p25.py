"""P25: derived quantities of a count."""

from __future__ import annotations

import math
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import counts, gen, turns
from pbt.core import check, close, floats, number, observing, same
from pbt.core import same_number, subtest, text

P = "P25"


@st.composite
def any_count(draw, given=False):
    """A count, mean stress corrected in one case out of four."""
    if given and draw(st.integers(0, 2)) == 0:
        return {"cc": draw(counts.direct()), "corr": None}
    spec = draw(counts.counts(depth=2))
    corr = None
    if draw(st.integers(0, 3)) == 0:
        corr = draw(st.sampled_from(["dnv", "walker", "swt"]))
    return {"cc": spec, "corr": corr}


def correct(cc, corr):
    """The corrected count; P11 decides whether it is right."""
    if corr is None:
        return cc
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kwargs = {"dnv": {"correction_type": "DNVGL-RP-C203",
                          "detail_factor": 0.8},
                  "walker": {"correction_type": "walker", "gamma": 0.4},
                  "swt": {"correction_type": "swt"}}[corr]
        return cc.mean_stress_correction(enforce_pulsating_load=True,
                                         **kwargs)


def build(case):
    cc, _ = counts.make(case["cc"])
    return correct(cc, case["corr"])


def labels(case):
    out = counts.labels_of(case["cc"])
    if case["corr"]:
        out.add("corrected")
    return out


def pairs(values, what):
    arr = np.asarray(floats(values, what, 2) if np.size(values)
                     else np.empty((0, 2)))
    check(arr.shape[1] == 2, f"{what}: {arr.shape[1]} columns")
    return [tuple(r) for r in arr.tolist()]


@subtest(P, "stresses", lambda: any_count(True), "every case", quick=800, weight=2)
def stresses(case):
    judge_stresses(build(case))
    return labels(case)


def judge_stresses(cc):
    rows = counts.rows_of(cc)
    scale = max(abs(v) for r in rows for v in r[:2]) or 1.0
    for what, got, want in (
        ("amplitude", cc.stress_amplitude, [r[0] / 2 for r in rows]),
        ("minimum", cc.min_stress, [r[1] - r[0] / 2 for r in rows]),
        ("maximum", cc.max_stress, [r[1] + r[0] / 2 for r in rows]),
    ):
        same(got, want, what, 1e-12, 1e-12 * scale)


@subtest(P, "full and half cycles", lambda: any_count(True), "every case", quick=800,
         weight=2)
def cycles(case):
    return labels(case) | judge_cycles(build(case))


def judge_cycles(cc):
    rows = counts.rows_of(cc)
    full = sorted((r[1], r[0]) for r in rows for _ in range(int(r[2])))
    half = sorted((r[1], r[0]) for r in rows if r[2] % 1 == 0.5)
    for what, got, want in (
        ("full cycles", cc.full_cycles, full),
        ("half cycles", cc.half_cycles, half),
        ("residuals", cc.residuals, half),
    ):
        got = sorted(pairs(got, what))
        check(got == want, f"{what}: got {got[:8]}, expected {want[:8]}")
    out = set()
    if any(r[2] > 1 for r in rows):
        out.add("clustered")
    if full and half:
        out.add("both")
    return out


@subtest(P, "statistical moments", lambda: any_count(True), "ranges that differ",
         quick=800, weight=2)
def moments(case):
    return labels(case) if judge_moments(build(case)) else ()


def judge_moments(cc):
    rows = counts.rows_of(cc)
    ran = [r[0] for r in rows for _ in range(int(r[2]))]
    ran += [r[0] for r in rows if r[2] % 1 == 0.5]
    with observing("moments"):
        got = [number(v, "moment") for v in cc.statistical_moments]
    check(len(got) == 3, f"{len(got)} moments")
    n = len(ran)
    mean = math.fsum(ran) / n
    if mean == 0:
        return False
    var = math.fsum((r - mean) ** 2 for r in ran) / n
    third = math.fsum((r - mean) ** 3 for r in ran) / n
    spread = max(abs(r - mean) for r in ran) / mean
    for what, g, w in zip(
        ("mean", "coefficient of variation", "third moment"),
        got,
        (mean, math.sqrt(var) / mean, third / mean**3),
    ):
        check(close(g, w, 1e-9, 1e-12 * (1 + spread) ** 3 *
                    (mean if what == "mean" else 1)),
              f"{what} of the ranges: got {g!r}, expected {w!r}")
    return var > 0


@subtest(
    P,
    "after setting",
    lambda: st.fixed_dictionaries(
        {
            "case": any_count(),
            "other": any_count(),
            "set": st.lists(st.sampled_from(["count_cycle", "stress_range",
                                             "mean_stress"]),
                            min_size=1, max_size=3, unique=True),
            "look": st.integers(0, 3),
        }
    ),
    "every case",
    quick=400,
    weight=3,
)
def after_setting(case):
    """The values follow the content as it is now."""
    cc, other = build(case["case"]), build(case["other"])
    if case["look"]:
        with observing("count"):
            for name in ("stress_amplitude", "min_stress", "max_stress",
                         "full_cycles", "half_cycles", "residuals",
                         "statistical_moments"):
                getattr(cc, name)
            cc.to_df()
            getattr(cc, "min_max_sequence")
    for name in case["set"]:
        setattr(cc, name, np.resize(getattr(other, name),
                                    len(cc.count_cycle)))
    if len(case["set"]) == 2 and case["case"]["cc"]["op"] == "ts":
        # the extremes of the residuals as they are now
        cc = build(dict(case["case"], corr=None))
        if case["look"]:
            getattr(cc, "min_max_sequence")
        tiny = 2.0**-40
        cc.residuals_sequence = np.array([4.0, tiny - 3.0, 5.0 + tiny, 1.0])
        same(cc.min_max_sequence, [tiny - 3.0, 5.0 + tiny],
             "extremes of the residuals", 0)
        cc.residuals_sequence = np.array([1.0, 3.0, 2.0])
        same(cc.min_max_sequence, [1.0, 3.0], "extremes of the residuals", 0)
    judge_stresses(cc)
    judge_cycles(cc)
    judge_moments(cc)
    df = cc.to_df()
    for k, col in enumerate(("stress_range", "mean_stress", "count_cycle")):
        same(df[col].to_numpy(), [r[k] for r in counts.rows_of(cc)], col, 0)
    return {"used before" if case["look"] else "not used before"}


METADATA = ["name", "timestamp", "time_sequence", "residuals_sequence",
            "mean_stress_corrected", "stress_concentration_factor",
            "nr_small_cycles", "lffd_solved", "unit"]


@subtest(P, "dataframe", lambda: any_count(True), "every case", quick=600, weight=3)
def dataframe(case):
    cc = build(case)
    rows = counts.rows_of(cc)
    df = cc.to_df()
    with observing("dataframe"):
        check(len(df) == len(rows), f"{len(df)} rows, {len(rows)} entries")
        for col, k in (("stress_range", 0), ("mean_stress", 1),
                       ("count_cycle", 2)):
            same(df[col].to_numpy(), [r[k] for r in rows], col, 0)
        meta = df._metadata
        for key in METADATA:
            got, want = meta[key], getattr(cc, key)
            if key in ("time_sequence", "residuals_sequence"):
                same_seq = (got is None and want is None) or (
                    np.asarray(got).tolist() == np.asarray(want).tolist())
                check(same_seq, f"metadata {key}: {got}, count has {want}")
            else:
                check(got == want, f"metadata {key}: {got!r}, count has "
                      f"{want!r}")
    return labels(case)


@subtest(
    P, "bins",
    lambda: st.tuples(any_count(),
                      st.one_of(st.none(), gen.grid(-400, 100, 0.5))),
    "a full cycle above the lowest bin", quick=600, weight=2)
def bin_edges(case):
    case, lower = case
    cc = build(case)
    if lower is not None:
        cc.mean_bin_lower_bound = lower
        same_number(cc.mean_bin_lower_bound, lower, "bound that was set", 0)
    rows = counts.rows_of(cc)
    full = [r for r in rows if r[2] >= 1]
    if not full:
        return ()
    mean_lb = number(cc.mean_bin_lower_bound, "mean bin lower bound")
    range_lb = number(cc.range_bin_lower_bound, "range bin lower bound")
    # bins start above all cycles: nothing to bin
    if max(r[0] for r in full) <= range_lb:
        return ()
    if max(r[1] for r in full) <= mean_lb:
        return ()
    with observing("bins"):
        edges, centers = cc.bin_edges, cc.bin_centers
        ubs = cc.mean_bin_upper_bound, cc.range_bin_upper_bound
    for what, k, lb, width, i in (
        ("mean", 1, mean_lb, number(cc.mean_bin_width, "width"), 0),
        ("range", 0, range_lb, number(cc.range_bin_width, "width"), 1),
    ):
        top = max(r[k] for r in full)
        e = floats(edges[i], f"{what} edges")
        tol = 1.1e-5 + 1e-9 * abs(top)
        same(e, [lb + j * width for j in range(len(e))], f"{what} edges",
             1e-9, 1.1e-5)
        check(top - tol <= e[-1] <= top + 2 * width + tol,
              f"{what} edges end at {e[-1]}, cycles at {top}")
        same(centers[i], [lb + (j + 0.5) * width for j in range(len(e) - 1)],
             f"{what} centers", 1e-9, 1.1e-5)
        ub = number(ubs[i], f"{what} upper bound")
        check(top - tol <= ub <= top + width * (1 + 1e-6) + tol,
              f"{what} upper bound {ub}, cycles up to {top}")
    return labels(case)


@subtest(
    P,
    "text",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=2, start=0),
            "shift": st.integers(0, 3000000),
        }
    ),
    "every case",
    quick=300,
)
def text_form(case):
    cc, _ = counts.make(shifted(case["cc"], case["shift"]))
    got = text(str(cc), "text form")
    times = counts.times_of(cc)
    check(str(cc.name) in got, f"no name {cc.name!r} in {got!r}")
    fmt = "%d %b %Y, %H:%M"
    first, last = times[0].strftime(fmt), times[-1].strftime(fmt)
    check(first in got, f"{first!r} is not in {got!r}")
    if len(times) > 1:
        check(got.rfind(last) > got.find(first) or last == first
              and got.count(first) == 2, f"{last!r} is not in {got!r}")
        return {"several times"}
    return {"one time"}


def shifted(spec, minutes):
    """The same count at another time."""
    new = dict(spec)
    if "t" in new:
        new["t"] += minutes
    if "args" in new:
        new["args"] = [shifted(s, minutes) for s in new["args"]]
    if "arg" in new:
        new["arg"] = shifted(new["arg"], minutes)
    return new


# ----------------------------------------------------------- one after another
for _name in ("stresses", "full and half cycles", "statistical moments",
              "dataframe"):
    turns.in_turn(P, _name, {
        "correction": turns.part("corr"),
        **turns.of_counts("cc"),
    }, quick=180)
