"""P04: counting windows and resolving equals counting the whole."""

from __future__ import annotations

import dataclasses

import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.cycle_count import pbar_sum

from pbt import counts, gen, turns
from pbt.core import check, rejects, same_cycles, same_number, subtest
from pbt.ref import rainflow as ref

P = "P04"


def windows(x, cuts):
    """Cut a signal so that no window is constant."""
    out, start = [], 0
    for cut in sorted(set(cuts)) + [len(x)]:
        cut = min(cut, len(x))
        part = x[start:cut]
        if len(part) < 2 or min(part) == max(part):
            continue
        rest = x[cut:]
        if cut < len(x) and (
            len(rest) < 2 or min(rest) == max(rest)
        ):
            continue
        out.append(part)
        start = cut
    return out


def grouped(ccs, how):
    """Sum in time order, grouped in several ways."""
    if how == "left":
        out = ccs[0]
        for cc in ccs[1:]:
            out = out + cc
        return out
    if how == "right":
        out = ccs[-1]
        for cc in reversed(ccs[:-1]):
            out = cc + out
        return out
    if how == "halves":
        if len(ccs) == 1:
            return ccs[0]
        k = len(ccs) // 2
        return grouped(ccs[:k], how) + grouped(ccs[k:], how)
    if how == "sum":
        return sum(ccs)
    return pbar_sum(ccs)


@st.composite
def window_case(draw):
    long = draw(st.integers(0, 5)) == 0
    if long:
        x = draw(gen.long_signal(100, 400))
        n = x["walk"][0]
    else:
        x = draw(
            gen.varying(
                st.one_of(
                    gen.exact_signal(4, 40),
                    gen.zigzag(4, 40),
                    gen.zigzag(4, 40, 1.0),
                    gen.any_signal(4, 40),
                )
            )
        )
        n = len(x)
    return {
        "x": x,
        "cuts": draw(st.lists(st.integers(2, n), max_size=8)),
        "how": draw(
            st.sampled_from(["left", "right", "halves", "sum", "pbar"])
        ),
        "mode": draw(st.sampled_from(["Residuals", "residuals", "default",
                                      "resolve_residuals"])),
    }


@subtest(
    P,
    "windows",
    window_case,
    "the signal is cut into two windows at least",
    quick=900,
    weight=4,
)
def window_sum(case):
    x = gen.expand(case["x"])
    if min(x) == max(x):
        return ()
    parts = windows(x, case["cuts"])
    ccs = [
        CycleCount.from_timeseries(
            np.array(p, float), timestamp=counts.stamp(10 * i), name="w"
        )
        for i, p in enumerate(parts)
    ]
    total = grouped(ccs, case["how"])
    if case["mode"] == "default":
        solved = total.solve_lffd()
    elif case["mode"] == "resolve_residuals":
        solved = total.resolve_residuals()
    else:
        solved = total.solve_lffd(case["mode"])
    rows = ref.cycles(x)
    same_cycles(counts.rows_of(solved), rows, "resolved windows")
    labels = set()
    if len(parts) > 1:
        labels |= {"windows", case["how"]}
        whole = CycleCount.from_timeseries(np.array(x, float))
        same_cycles(
            counts.rows_of(solved),
            counts.rows_of(whole),
            "resolved windows against the whole",
        )
        if any(r[2] == 1 for r in rows):
            labels.add("full cycles")
        inside = sum(len(ref.cycles(p)) for p in parts)
        if inside != len(rows):
            labels.add("cycles across windows")
        if len(parts) > 3:
            labels.add("many windows")
        ranges = [r[0] for r in rows]
        if len(set(ranges)) < len(ranges):
            labels.add("tied ranges")
    return labels


@st.composite
def many_windows(draw):
    """A long signal in many windows, as measurements come."""
    x = draw(st.one_of(gen.record([300, 1000, 4096, 8000]),
                       gen.spirals(60, 800)))
    n = x["walk" if "walk" in x else "spiral"][0]
    size = draw(st.integers(max(2, n // 300), n // 12))
    shift = draw(st.integers(0, size - 1))
    return {
        "x": x,
        "cuts": [k for k in range(shift, n, size) if k >= 2],
        "how": draw(
            st.sampled_from(["left", "right", "halves", "sum", "pbar"])
        ),
        "mode": draw(st.sampled_from(["Residuals", "default"])),
    }


@subtest(
    P,
    "many windows",
    many_windows,
    "the signal is cut into two windows at least",
    quick=60,
    weight=40,
)
def window_sums(case):
    return window_sum(case)


@st.composite
def rising(draw):
    """Windows that together rise or fall all the time."""
    levels = sorted(draw(st.lists(gen.grid(-20, 20, 0.5), min_size=3,
                                  max_size=7, unique=True)))
    if draw(st.booleans()):
        levels = levels[::-1]
    return {"op": "add", "args": [
        {"op": "ts", "x": [a, b], "t": 10 * i, "unit": "MPa", "name": None}
        for i, (a, b) in enumerate(zip(levels, levels[1:]))]}


MODES = ["residuals", "Residuals", "RESIDUALS", "min-max", "Min-Max",
         "min/max", "min max", "MIN MAX"]


@subtest(
    P,
    "resolving",
    lambda: st.fixed_dictionaries(
        {
            "cc": st.one_of(*[counts.counts(depth=2)] * 9, rising()),
            "mode": st.sampled_from(MODES),
            "again": st.sampled_from(MODES),
        }
    ),
    "resolving has an effect",
    quick=700,
    weight=2,
)
def resolving(case):
    cc, _ = counts.make(case["cc"])
    before = counts.observe(cc)
    mode = "residuals" if case["mode"].lower() == "residuals" else "min-max"
    after = cc.solve_lffd(case["mode"])
    want = before.solve(mode)
    counts.compare_rows(after, want, "resolved")
    counts.compare_sequences(after, want, "resolved",
                             minmax=mode == "residuals")
    counts.compare_times(after, want, "resolved")
    counts.compare_labels(after, want, "resolved")
    counts.compare_bins(after, want, "resolved")
    same_number(
        after.stress_concentration_factor, want.scf, "SCF of the resolved"
    )
    counts.compare_state(after, want, "resolved")
    if mode == "min-max" and before.can_solve(mode):
        # the only cycles left are full ones and those of the window extremes
        seq = before.minmax
        same_number(
            max(r[0] for r in ref.cycles(seq)),
            max(seq) - min(seq),
            "largest half cycle",
        )
    # nothing happens the second time
    twice = after.solve_lffd(case["again"])
    if before.can_solve(mode) or before.solved:
        want2 = dataclasses.replace(want, solved=True)
        counts.compare_rows(twice, want2, "resolved twice")
        counts.compare_sequences(twice, want2, "resolved twice", False)
        counts.compare_state(twice, want2, "resolved twice")
        counts.compare_times(twice, want2, "resolved twice")
        counts.compare_labels(twice, want2, "resolved twice")
    labels = set()
    if before.can_solve(mode):
        labels = {mode} | counts.labels_of(case["cc"])
        if all(r[2] <= 0.5 for r in before.rows):
            labels.add("half cycles only")
    return labels


@subtest(
    P,
    "min-max windows",
    lambda: st.fixed_dictionaries(
        {
            "parts": st.lists(
                counts.small_signal(), min_size=2, max_size=6
            ),
            "mode": st.sampled_from(MODES[3:]),
            "how": st.sampled_from(["left", "right", "halves", "sum",
                                    "pbar"]),
        }
    ),
    "every case",
    quick=400,
    weight=2,
)
def minmax_windows(case):
    ccs = [
        CycleCount.from_timeseries(
            np.array(p, float), timestamp=counts.stamp(10 * i)
        )
        for i, p in enumerate(case["parts"])
    ]
    solved = grouped(ccs, case["how"]).solve_lffd(case["mode"])
    seq = [v for p in case["parts"] for v in (min(p), max(p))]
    want = ref.cycles(seq)
    for p in case["parts"]:
        want += [r for r in ref.cycles(p) if r[2] == 1]
    same_cycles(counts.rows_of(solved), want, "min-max resolved windows")
    check(bool(solved.lffd_solved), "result is not marked as resolved")
    return {"windows", case["how"]}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "mode": st.sampled_from(
                ["", "minmax", "residual", "max", "min", "full", "res",
                 "residuals ", "half-cycles"]
            ),
        }
    ),
    "every case",
    quick=60,
)
def rejection(case):
    cc, _ = counts.make(case["cc"])
    rejects("unknown mode", ValueError, cc.solve_lffd, case["mode"])
    return {case["mode"] or "empty"}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "resolving", {
    "mode": turns.part("mode"),
    "count": turns.part("cc"),
    **turns.of_counts("cc"),
}, quick=360)
