"""P13: linear damage."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue.damage.stress_life import calc_pm, get_pm

from pbt import counts, curves, gen, turns
from pbt.core import call, check, close, fail, floats, rejects, same
from pbt.core import subtest

P = "P13"
RTOL = 1e-8


def number_of_cycles():
    return st.one_of(
        st.sampled_from([0.5, 1.0, 1.0, 2.0, 7.0]),
        gen.grid(0.5, 5000, 0.5),
        st.just(0.0),
        gen.floats(1e-6, 1e7),
    )


@st.composite
def spectrum(draw, curve=None, min_size=1, max_size=8):
    """A curve with stress ranges around its features, and cycles."""
    curve = draw(curves.sn() if curve is None else curve)
    stress = draw(curves.stresses_for(curve, min_size, max_size))
    if draw(st.integers(0, 9)) == 0:
        stress[draw(st.integers(0, len(stress) - 1))] = 0.0
    return {
        "curve": curve,
        "stress": stress,
        "count": [draw(number_of_cycles()) for _ in stress],
    }


def ref_damage(curve, stress, count):
    n = curves.ref_cycles(curve, stress)
    return 0.0 if n == math.inf else count / n


def compare(got, curve, stress, count, what):
    got = floats(got, what)
    check(got.size == len(stress),
          f"{what}: {got.size} values for {len(stress)} entries")
    for i, (d, s, c) in enumerate(zip(got.tolist(), stress, count)):
        if curves.at_endurance(curve, s):
            alt = c / 10 ** curves.log_cycles(curve, s)
            if d == 0 or close(d, alt, RTOL):
                continue
        want = ref_damage(curve, s, c)
        if not close(d, want, RTOL):
            fail(f"{what}[{i}] of range {s!r} and {c!r} cycles: got {d!r}, "
                 f"expected {want!r}")


def spectrum_labels(case):
    curve = case["curve"]
    out = {f"{len(curve['m'])} branches"}
    if len(case["stress"]) > 1:
        out.add("several entries")
        if case["stress"] != sorted(case["stress"]):
            out.add("not sorted")
    for s in case["stress"]:
        n = curves.ref_cycles(curve, s)
        out.add("beyond endurance" if n == math.inf else "damaging")
    if any(c % 1 for c in case["count"]):
        out.add("fractional counts")
    return out


@subtest(
    P,
    "arrays",
    lambda: st.tuples(
        spectrum(),
        st.sampled_from(["list", "array", "series", "scalar", "ints",
                         "indexed series", "mixed"]),
        st.sampled_from([1] * 14 + [9, 40, 300]),
    ),
    "an entry with damage",
    quick=900,
)
def arrays(case):
    case, form, times = case
    curve = curves.make_sn(case["curve"])
    stress = case["stress"] * times
    count = [n + k for k in range(times) for n in case["count"]]
    s, c = stress, count
    if form == "array":
        s, c = np.array(s), np.array(c)
    elif form == "series":
        s, c = pd.Series(s), pd.Series(c)
    elif form == "indexed series":
        idx = list(range(len(s)))[::-1]
        s, c = pd.Series(s, index=idx), pd.Series(c, index=idx)
    elif form == "mixed":
        s = np.array(s)
    elif form == "ints":
        s = [max(1, int(v)) for v in s]
        c = [int(v) for v in c]
        stress, count = [float(v) for v in s], [float(v) for v in c]
    elif form == "scalar":
        s, c, stress, count = s[0], c[0], stress[:1], count[:1]
    got = call("damage", calc_pm, s, c, curve)
    compare(np.atleast_1d(got), case["curve"], stress, count, "damage")
    out = spectrum_labels(case)
    out.add("many entries" if len(stress) > 99 else "few entries")
    return out | {form} if "damaging" in out else ()


def for_count(draw_unit="MPa"):
    return st.fixed_dictionaries(
        {"cc": st.one_of(counts.counts(depth=2, unit=draw_unit),
                         counts.counts(depth=2, unit=draw_unit),
                         counts.direct(1e7)),
         "curve": curves.sn(unit=draw_unit)}
    )


def scaled_curve(curve, factor):
    """The curve of a weaker detail, so that small counts do damage."""
    new = dict(curve)
    new["a"] = [a + m * math.log10(factor) for m, a in
                zip(curve["m"], curve["a"])]
    return new


@subtest(
    P,
    "interfaces",
    lambda: st.tuples(
        for_count(), st.sampled_from([1.0, 0.3, 0.1, 0.03]),
        st.sampled_from(counts.INDEXES),
    ),
    "an entry with damage",
    quick=500,
    weight=3,
)
def interfaces(case):
    spec = scaled_curve(case[0]["curve"], case[1])
    curve = curves.make_sn(spec)
    cc, _ = counts.make(case[0]["cc"])
    rows = counts.rows_of(cc)
    stress, count = [r[0] for r in rows], [r[2] for r in rows]
    compare(call("damage", get_pm, cc, curve), spec, stress, count,
            "damage of a count")
    df = counts.frame_of(cc, case[2])
    out = df.miner.damage(curve)
    for what, frame in (("dataframe", df), ("returned dataframe", out)):
        compare(frame["pm_damage"].to_numpy(), spec, stress, count,
                f"damage in the {what}")
        same(frame["stress_range"].to_numpy(), stress, "ranges", 0)
        same(frame["count_cycle"].to_numpy(), count, "counts", 0)
    n = floats(df["cycles_to_failure"].to_numpy(), "cycles to failure")
    for got, s in zip(n.tolist(), stress):
        want = curves.ref_cycles(spec, s)
        check(close(got, want, RTOL) or curves.at_endurance(spec, s),
              f"cycles to failure of {s}: got {got}, expected {want}")
    keeps(df, out, curve)
    # another curve for the same table
    spec2 = scaled_curve(spec, 0.5)
    curve2 = curves.make_sn(spec2)
    keeps(df, df.miner.damage(curve2), curve2)
    compare(df["pm_damage"].to_numpy(), spec2, stress, count,
            "damage by a second curve")
    labels = spectrum_labels({"curve": spec, "stress": stress,
                              "count": count})
    if "damaging" not in labels:
        return ()
    return labels | counts.labels_of(case[0]["cc"]) | {f"index {case[2]}"}


def keeps(df, out, curve):
    """The table and its accessor know the curve."""
    for what, where in (("table", out), ("accessor", df.miner)):
        check(getattr(where, "sn_curve", None) == curve,
              f"the {what} does not keep the curve")


@subtest(
    P,
    "additive",
    lambda: st.fixed_dictionaries(
        {
            "a": counts.counts(depth=1),
            "b": counts.counts(depth=1, start=100000),
            "curve": curves.sn(),
            "scale": st.sampled_from([0.3, 0.1, 0.03]),
        }
    ),
    "the sum has damage",
    quick=300,
    weight=3,
)
def additive(case):
    curve = curves.make_sn(scaled_curve(case["curve"], case["scale"]))
    a, _ = counts.make(case["a"])
    b, _ = counts.make(case["b"])

    def total(cc):
        return math.fsum(floats(call("damage", get_pm, cc, curve),
                                "damage"))

    got, want = total(a + b), total(a) + total(b)
    check(close(got, want, 1e-9, 1e-300),
          f"damage of a sum is {got!r}, that of its terms {want!r}")
    return counts.labels_of(case["a"]) if want > 0 else ()


@subtest(
    P,
    "splitting and growing",
    lambda: st.fixed_dictionaries(
        {
            "s": spectrum(max_size=5),
            "part": st.sampled_from([0.25, 0.5, 0.1, 0.75]),
            "which": st.integers(0, 4),
            "up": st.sampled_from([1.001, 1.1, 2.0]),
        }
    ),
    "an entry with damage",
    quick=400,
    weight=2,
)
def splitting(case):
    spec = case["s"]
    curve = curves.make_sn(spec["curve"])
    stress, count = spec["stress"], spec["count"]
    i = case["which"] % len(stress)
    base = floats(call("damage", calc_pm, np.array(stress), np.array(count),
                       curve), "damage").tolist()
    # splitting the cycles of an entry
    s2 = stress + [stress[i]]
    c2 = list(count)
    c2[i] = count[i] * case["part"]
    c2.append(count[i] - c2[i])
    split = floats(call("damage", calc_pm, np.array(s2), np.array(c2),
                        curve), "damage").tolist()
    check(close(math.fsum(split), math.fsum(base), 1e-9, 1e-300),
          "splitting the cycles of an entry changes the damage")
    # more cycles or more stress
    c3 = list(count)
    c3[i] *= case["up"]
    s3 = list(stress)
    s3[i] *= case["up"]
    for what, s, c in (("cycles", stress, c3), ("stress", s3, count)):
        more = floats(call("damage", calc_pm, np.array(s), np.array(c),
                           curve), "damage").tolist()
        for j, (d0, d1) in enumerate(zip(base, more)):
            if j != i:
                check(d0 == d1, f"damage of entry {j} depends on entry {i}")
            else:
                check(d1 >= d0 * (1 - 1e-12),
                      f"more {what}, less damage: {d1} after {d0}")
    return spectrum_labels(spec) if base[i] > 0 else ()


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1, unit="MPa"),
            "kcc": counts.counts(depth=1, unit="ksi"),
            "curve": curves.sn(branches=(1, 2)),
            "what": st.sampled_from(["unit", "unit other way", "length",
                                     "columns", "again"]),
            "other": st.sampled_from(["ksi", "mpa", "MPA", "Pa", "MPa2"]),
            "df": st.booleans(),
        }
    ),
    "every case",
    quick=150,
    weight=2,
)
def rejection(case):
    what = case["what"]
    if what.startswith("unit"):
        unit = case["other"] if what == "unit" else "MPa"
        cc, _ = counts.make(case["cc" if what == "unit" else "kcc"])
        curve = curves.make_sn(dict(case["curve"], unit=unit))
        if case["df"]:
            rejects("curve in another unit", ValueError,
                    lambda: cc.to_df().miner.damage(curve))
        else:
            rejects("curve in another unit", ValueError, get_pm, cc, curve)
        return {what, "dataframe" if case["df"] else "count"}
    cc, _ = counts.make(case["cc"])
    curve = curves.make_sn(case["curve"])
    if what == "length":
        for wrong in gen.UNEQUAL:
            rejects(f"lists of different length {wrong}", ValueError, calc_pm,
                    *map(np.array, wrong), curve)
    elif what == "columns":
        rejects("table without counts", AttributeError,
                lambda: pd.DataFrame({"a": [1.0]}).miner)
    else:
        df = cc.to_df().miner.damage(curve)
        rejects("damage of a table that has it", AttributeError,
                lambda: pd.DataFrame(df).miner)
    return {what}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "arrays", {
    "backwards": turns.changed(0, "stress", by=lambda s: s[::-1]),
    "form": turns.part(1),
    **turns.of_curve(turns.SN, 0, "curve"),
}, quick=600)
turns.in_turn(P, "interfaces", {
    "index": turns.part(2),
    "other signals": turns.changed(0, "cc", by=turns.other_signals),
    **turns.of_curve(turns.SN, 0, "curve"),
}, quick=240)
