"""P05: adding cycle-counts."""

from __future__ import annotations

import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.cycle_count import pbar_sum

from pbt import counts, turns
from pbt.core import check, observing, rejects, subtest
from pbt.props.p04 import grouped
from pbt.props.p25 import correct

P = "P05"


@st.composite
def terms(draw, min_size=2, max_size=5, depth=1):
    """Counts in time order."""
    out, start = [], 0
    for _ in range(draw(st.integers(min_size, max_size))):
        spec = draw(counts.counts(depth=depth, start=start))
        out.append(spec)
        start = last_minute(spec) + draw(st.sampled_from([0, 1, 600]))
    return out


def last_minute(spec):
    if "t" in spec:
        return spec["t"]
    if "args" in spec:
        return max(last_minute(s) for s in spec["args"])
    return last_minute(spec["arg"])


def compare_sum(got, models, what):
    want = models[0]
    for model in models[1:]:
        want = want.add(model)
    counts.compare_rows(got, want, what)
    counts.compare_sequences(got, want, what)
    counts.compare_bins(got, want, what)
    counts.compare_times(got, want, what)
    counts.compare_state(got, want, what)
    check(got.unit == want.unit, f"{what}: unit {got.unit!r}")
    counts.same_number(
        got.nr_small_cycles, want.small, f"{what}: small cycles"
    )
    factors = [m.scf for m in models]
    if len(models) == 2 or max(factors) == min(factors):
        counts.same_number(
            got.stress_concentration_factor,
            sum(factors) / len(factors),
            f"{what}: SCF",
        )


@subtest(
    P,
    "sum",
    lambda: st.fixed_dictionaries(
        {
            "terms": terms(),
            "how": st.sampled_from(
                ["left", "right", "halves", "sum", "pbar"]
            ),
            "corr": st.lists(
                st.sampled_from([None] * 6 + ["dnv", "swt", "walker"]),
                min_size=1, max_size=3,
            ),
        }
    ),
    "every case (two terms at least)",
    quick=900,
    weight=2,
)
def add(case):
    corr = case["corr"]
    ccs = [correct(counts.make(s)[0], corr[i % len(corr)])
           for i, s in enumerate(case["terms"])]
    models = [counts.observe(cc) for cc in ccs]
    got = grouped(ccs, case["how"])
    compare_sum(got, models, "sum")
    labels = {case["how"], f"{len(ccs)} terms"}
    if any(corr[:len(ccs)]):
        labels.add("corrected terms")
    for spec in case["terms"]:
        labels |= counts.labels_of(spec)
    if len({t for m in models for t in m.times}) > len(ccs):
        labels.add("terms with several times")
    if len({m.scf for m in models}) > 1:
        labels.add("several SCF")
    if any(m.res is None for m in models):
        labels.add("no residual sequence")
    return labels


@subtest(
    P,
    "progress bar sum",
    lambda: st.fixed_dictionaries(
        {
            "minutes": st.lists(
                st.sampled_from([0, 1, 10]), min_size=1, max_size=20
            ),
            "signals": st.lists(
                counts.small_signal(), min_size=1, max_size=3
            ),
            "gaps": st.lists(st.booleans(), min_size=1, max_size=20),
        }
    ),
    "two counts at least",
    quick=300,
    weight=3,
)
def progress_bar(case):
    minute, ccs, models = 0, [], []
    for i, step in enumerate(case["minutes"]):
        minute += step
        if i and case["gaps"][i % len(case["gaps"])]:
            ccs.append(None)
            continue
        x = case["signals"][i % len(case["signals"])]
        spec = {"op": "ts", "x": [v + i for v in x], "t": minute,
                "unit": "MPa", "name": "n"}
        ccs.append(counts.make(spec)[0])
        models.append(counts.observe(ccs[-1]))
    as_given = list(ccs)
    got = pbar_sum(ccs)
    check(
        len(ccs) == len(as_given)
        and all(a is b for a, b in zip(ccs, as_given)),
        "the list of terms was changed",
    )
    if len(models) > 1:
        compare_sum(got, models, "progress bar sum")
    else:
        counts.compare_all(got, models[0], "progress bar sum of one")
        return ()
    return {"gaps" if len(models) < len(ccs) else "no gaps",
            "many" if len(models) > 8 else "few"}


@subtest(
    P,
    "many terms",
    lambda: st.fixed_dictionaries(
        {
            "n": st.one_of(st.integers(21, 300), st.integers(21, 300),
                           st.integers(21, 300), st.integers(1000, 1300)),
            "signals": st.lists(
                counts.small_signal(), min_size=1, max_size=3
            ),
            "factor": st.sampled_from([None, None, 2.0, 0.5]),
            "gap": st.integers(2, 40),
            "how": st.sampled_from(["pbar", "pbar", "left", "right",
                                    "halves", "sum"]),
        }
    ),
    "every case",
    quick=60,
    weight=25,
)
def many_terms(case):
    ccs, models, labels = [], [], {case["how"]}
    for i in range(case["n"]):
        if case["how"] == "pbar" and i % case["gap"] == 1:
            ccs.append(None)
            labels.add("gaps")
            continue
        x = case["signals"][i % len(case["signals"])]
        spec = {"op": "ts", "x": [v + i for v in x], "t": 10 * i,
                "unit": "MPa", "name": "n"}
        cc = counts.make(spec)[0]
        ccs.append(cc * case["factor"] if case["factor"] else cc)
        models.append(counts.observe(ccs[-1]))
    compare_sum(grouped(ccs, case["how"]), models, "sum of many")
    return labels | {"over 100" if case["n"] > 100 else "up to 100"}


@subtest(
    P,
    "nothing added",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "what": st.sampled_from(["none", "zero", "zero float", "nan",
                                     "numpy nan"]),
            "left": st.booleans(),
        }
    ),
    "every case",
    quick=200,
)
def nothing(case):
    cc, _ = counts.make(case["cc"])
    before = counts.observe(cc)
    thing = {"none": None, "zero": 0, "zero float": 0.0,
             "nan": float("nan"), "numpy nan": np.float64("nan")}[
                 case["what"]]
    got = thing + cc if case["left"] else cc + thing
    counts.compare_all(got, before, "count plus nothing")
    return {case["what"], "left" if case["left"] else "right"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "a": counts.counts(depth=1, start=1000),
            "b": counts.counts(depth=1, start=1000),
            "unit": st.sampled_from(["ksi", "mpa", "MPA", "Pa", "MPa2"]),
            "what": st.sampled_from(
                ["unit", "unit reversed", "time", "time within", "text",
                 "number", "float", "list", "dict", "object", "no text",
                 "no list", "no dict", "no tuple"]
            ),
        }
    ),
    "every case",
    quick=250,
)
def rejection(case):
    a, _ = counts.make(case["a"])
    what = case["what"]
    if what.startswith("unit"):
        other, _ = counts.make(
            {"op": "ts", "x": [0.0, 5.0, 1.0], "name": a.name,
             "t": 9999999 if what == "unit" else 0, "unit": case["unit"]}
        )
        if what == "unit":
            rejects("unit", TypeError, lambda: a + other)
        else:
            rejects("unit", TypeError, lambda: other + a)
        return {what}
    if what == "time":
        early, _ = counts.make(
            {"op": "ts", "x": [0.0, 5.0, 1.0], "name": a.name, "t": 999,
             "unit": "MPa"}
        )
        rejects("going back in time", TypeError, lambda: a + early)
        return {what}
    if what == "time within":
        # starts before the other ends
        b, _ = counts.make(case["b"])
        late, _ = counts.make(
            {"op": "ts", "x": [0.0, 5.0, 1.0], "name": a.name,
             "t": 9999999, "unit": "MPa"}
        )
        total = a + late
        rejects("going back in time", TypeError, lambda: total + b)
        return {what}
    thing = {"text": "a", "number": 5, "float": 2.5, "list": [1, 2],
             "dict": {"a": 1}, "object": object(), "no text": "",
             "no list": [], "no dict": {}, "no tuple": ()}[what]
    rejects("another type", (TypeError, ValueError), lambda: a + thing)
    rejects("another type", (TypeError, ValueError), lambda: thing + a)
    return {what}


# ---------------------------------------------------------------- clocks
GAPS = [0, 1, 1, 400, 10**6, 59 * 10**6, 60 * 10**6, 3600 * 10**6, 86400 * 10**6,
        31 * 86400 * 10**6, 366 * 86400 * 10**6]  # microseconds
ZONES = [0, 0, 120, -300, 330, 540, -720]  # minutes from UTC


@st.composite
def clock_cases(draw):
    n = draw(st.integers(2, 5))
    back = draw(st.integers(0, 2)) == 0
    return {
        "from": draw(st.sampled_from(["2019-12-31T23:59:30", "2020-02-28",
                                      "2021-06-30T12:00:00.500000"])),
        "gaps": [draw(st.sampled_from(GAPS)) *
                 (-1 if back and draw(st.integers(0, 2)) == 0 else 1)
                 for _ in range(n - 1)],
        "zones": [draw(st.sampled_from(ZONES)) for _ in range(n)],
        "kind": draw(st.sampled_from(["zones", "zones", "naive", "pandas"])),
        "signals": draw(st.lists(counts.small_signal(), min_size=1,
                                 max_size=3)),
    }


def clock(case, i, micro):
    """The time of the ``i``-th count, and as given to the count."""
    at = dt.datetime.fromisoformat(case["from"])
    at += dt.timedelta(microseconds=micro)
    if case["kind"] == "naive":
        return at, at
    at = at.replace(tzinfo=dt.timezone.utc)
    zone = dt.timezone(dt.timedelta(minutes=case["zones"][i]))
    there = at.astimezone(zone)
    return at, pd.Timestamp(there) if case["kind"] == "pandas" else there


@subtest(P, "clocks", clock_cases, "every case (two terms at least)",
         quick=300)
def clocks(case):
    micro, ccs, want = 0, [], []
    for i, gap in enumerate([0] + case["gaps"]):
        micro += gap
        at, given = clock(case, i, micro)
        x = case["signals"][i % len(case["signals"])]
        ccs.append(CycleCount.from_timeseries(
            np.array(x, float), timestamp=given, name="n"))
        want.append(at)
    total, last, out = ccs[0], want[0], {case["kind"]}
    for i in range(1, len(ccs)):
        if want[i] < last:
            rejects(f"{want[i]} after {last}", TypeError,
                    lambda: total + ccs[i])  # noqa: B023
            return out | {"going back"}
        total, last = total + ccs[i], want[i]
    for _ in range(2):
        with observing("time of a sum"):
            got = list(total.time_sequence)
            first = total.timestamp
            check(got == sorted(set(want)), f"times {got}, not {want}")
            check(first == want[0], f"time stamp {first}, not {want[0]}")
        total = total.solve_lffd()
    if any(0 < g < 60 * 10**6 for g in case["gaps"]):
        out.add("within a minute")
    return out


# ----------------------------------------------------------- one after another
def other_terms(terms):
    return [turns.other_signals(s) for s in terms]


turns.in_turn(P, "sum", {
    "other signals": turns.changed("terms", by=other_terms),
    "order of additions": turns.part("how"),
}, quick=360)
