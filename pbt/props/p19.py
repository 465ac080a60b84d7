"""P19: aggregation of tables of counts."""

from __future__ import annotations

import datetime as dt
import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage

from pbt import counts, curves, gen, turns
from pbt.core import call, check, close, fail, floats, number, observing
from pbt.core import rejects, same, subtest
from pbt.props.p13 import ref_damage, scaled_curve
from pbt.ref import rainflow as ref

P = "P19"
PERIODS = ["all", "All", "D", "W", "W-WED", "M", "h", "Y", "Q", "Q-NOV",
           "Y-MAR", "2D"]


def key_of(when, period):
    """The period a time belongs to."""
    day = when.date()
    return {
        "all": 0,
        "D": day,
        "W": day - dt.timedelta(days=day.weekday()),
        "W-WED": day - dt.timedelta(days=(day.weekday() - 3) % 7),
        "M": (when.year, when.month),
        "h": (day, when.hour),
        "Y": when.year,
        "Q": (when.year, (when.month - 1) // 3),
        "Q-NOV": (when.year * 12 + when.month) // 3,
        "Y-MAR": (when.year * 12 + when.month - 4) // 12,
    }[period.lower() if period.lower() == "all" else period]


@st.composite
def tables(draw, max_rows=9):
    minute, minutes = draw(st.integers(0, 600000)), []
    for _ in range(draw(st.integers(1, max_rows))):
        minutes.append(minute)
        minute += draw(st.sampled_from(
            [600, 1, 10, 1440, 30, 44640, 60, 10080, 1440]))
    unit = draw(st.sampled_from(["MPa", "MPa", "ksi"]))
    cols = []
    names = draw(st.lists(
        st.sampled_from(["CC_a", "CC_FA", "CC_b c", "CC_"]), min_size=1,
        max_size=2, unique=True))
    for name in names:
        cells = []
        for m in minutes:
            if draw(st.sampled_from([False, False, False, True])):
                cells.append(draw(st.sampled_from([None, "nan"])))
            else:
                cell = draw(counts.any_leaf(m, unit, name[3:]))
                if draw(st.integers(0, 5)) == 0:
                    cell = {"op": "mul", "arg": cell, "f": 2.0,
                            "left": False}
                cells.append(cell)
        cols.append([name, cells])
    for name in draw(st.lists(
            st.sampled_from(["wind", "power CC_", 7, "cc"]), max_size=2,
            unique=True)):
        cols.append([name, [
            draw(st.one_of(gen.grid(-20, 20, 0.25), st.none()))
            for _ in minutes]])
    if draw(st.booleans()):
        cols = cols[::-1]
    return {"t": minutes, "cols": cols, "unit": unit,
            "zone": draw(st.sampled_from(["UTC", None, "Asia/Kolkata"]))}


@st.composite
def long_tables(draw):
    """Many rows, of few signals."""
    step = draw(st.sampled_from([10, 60, 720, 1440, 4320]))
    some = draw(st.lists(counts.any_leaf(0, "MPa", "a"), min_size=1,
                         max_size=3))
    start, gap = draw(st.integers(0, 600000)), draw(st.integers(3, 30))
    n = draw(st.integers(20, 130))
    cells, other = [], []
    for i in range(n):
        cells.append(None if i % gap == 1 else
                     dict(some[i % len(some)], t=start + i * step))
        other.append(None if i % gap == 2 else float(i))
    return {"t": [start + i * step for i in range(n)], "unit": "MPa",
            "cols": [["CC_a", cells], ["wind", other]],
            "zone": draw(st.sampled_from(["UTC", None]))}


def make_table(case):
    index = pd.DatetimeIndex([counts.stamp(m) for m in case["t"]])
    if case["zone"] is None:
        index = index.tz_localize(None)
    else:
        index = index.tz_convert(case["zone"])
    # periods are those of the clocks where the times are given
    times = list(index.to_pydatetime())
    data, objects = {}, {}
    for name, cells in case["cols"]:
        if isinstance(name, str) and name.startswith("CC_"):
            objs = [
                None if c is None else math.nan if c == "nan"
                else counts.make(c)[0]
                for c in cells
            ]
            col = np.empty(len(objs), dtype=object)
            col[:] = objs
            data[name] = pd.Series(col, index=index, dtype=object)
            objects[name] = objs
        else:
            data[name] = pd.Series(
                [math.nan if c is None else c for c in cells], index=index,
                dtype=float)
    return pd.DataFrame(data, index=index), objects, times


def quietly(fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kwargs)


def groups_of(times, period):
    if period == "2D":
        # periods of two days start at the day of each time
        period = "D"
    keys = [key_of(t, period) for t in times]
    return [[i for i, k in enumerate(keys) if k == key]
            for key in sorted(set(keys))]


def total(objs):
    """Model of the sum of those that are counts, before and after
    resolving; none when there are none."""
    models = [counts.observe(o) for o in objs if isinstance(o, CycleCount)]
    if not models:
        return None, None
    want = models[0]
    for model in models[1:]:
        want = want.add(model)
    return want, (want.solve() if len(want.times) > 1 else want)


def compare(df, case, objects, times, groups, what):
    check(isinstance(df, pd.DataFrame), f"{what}: {type(df).__name__}")
    check(len(df) == len(groups),
          f"{what}: {len(df)} periods instead of {len(groups)}")
    check(sorted(map(str, df.columns))
          == sorted(str(n) for n, _ in case["cols"]),
          f"{what}: columns {list(df.columns)}")
    out = set()
    for name, cells in case["cols"]:
        for row, members in enumerate(groups):
            got = df[name].iloc[row]
            where = f"{what}: {name}, period {row}"
            if name not in objects:
                vals = [cells[i] for i in members if cells[i] is not None]
                want = math.fsum(vals) / len(vals) if vals else math.nan
                check(close(number(got, where), want, 1e-9, 1e-9),
                      f"{where}: {got} instead of {want}")
                out.add("other columns")
                continue
            _, want = total([objects[name][i] for i in members])
            if want is None:
                check(not isinstance(got, CycleCount),
                      f"{where}: a count out of nothing")
                out.add("period without count")
                continue
            check(isinstance(got, CycleCount), f"{where}: {got!r}")
            counts.compare_rows(got, want, where)
            counts.compare_sequences(got, want, where, minmax=False)
            counts.compare_times(got, want, where)
            check(got.unit == want.unit, f"{where}: unit {got.unit!r}")
            check(bool(got.lffd_solved) == want.solved,
                  f"{where}: resolved {got.lffd_solved}")
            n = len(members)
            out.add("one entry" if n == 1 else "two or three entries"
                    if n < 4 else "more entries")
            if want.solved:
                out.add("resolved")
    if len(groups) > 1:
        out.add("several periods")
    if any(isinstance(c, dict) is False for n, cs in case["cols"]
           if n in objects for c in cs):
        out.add("missing counts")
    return out


def check_index(df, times, groups, period):
    if period.lower() == "all":
        return
    with observing("index"):
        for label, members in zip(df.index, groups):
            start = label.start_time.to_pydatetime()
            end = label.end_time.to_pydatetime()
            if period == "2D":
                end = (start + dt.timedelta(days=1, hours=23, minutes=59,
                                            seconds=59))
            for i in members:
                when = times[i].replace(tzinfo=None)
                if not start <= when <= end:
                    raise ValueError(f"{when} in the period {label}")


@subtest(
    P,
    "aggregation",
    lambda: st.fixed_dictionaries(
        {"table": tables(), "by": st.sampled_from(PERIODS),
         "residuals": st.sampled_from([None, False, True, True])}
    ),
    "a period with two counts",
    quick=1200,
    weight=8,
)
def aggregation(case):
    table, period = case["table"], case["by"]
    df, objects, times = make_table(table)
    kwargs = {}
    if case["residuals"] is not None:
        kwargs["save_residuals"] = case["residuals"]
    got = quietly(aggregate_cc, df, period, **kwargs)
    groups = groups_of(times, period)
    saved = None
    if case["residuals"]:
        check(isinstance(got, tuple) and len(got) == 2,
              "no saved residuals")
        got, saved = got
    out = compare(got, table, objects, times, groups, "aggregation")
    check_index(got, times, groups, period)
    if saved is not None:
        for name, objs in objects.items():
            want = []
            for members in groups:
                model, _ = total([objs[i] for i in members])
                if model is not None and model.res is not None and len(
                        model.res) > 1:
                    want += ref.residual_sequence(model.res)
            with observing("saved residuals"):
                have, at = saved[name]["res"], saved[name]["idx"]
                check(len(have) == len(at), "positions of saved residuals")
            same(floats(have if len(have) else np.empty(0), "residuals"),
                 want, f"saved residuals of {name}", 1e-9, 1e-9)
            idx = floats(at if len(have) else np.empty(0), "positions")
            check(np.all(np.diff(idx) >= 0),
                  f"positions of saved residuals decrease: {idx.tolist()}")
            if want:
                out.add("saved residuals")
    if "two or three entries" not in out and "more entries" not in out:
        return ()
    return out | {period.lower() if period == "All" else period}


@subtest(
    P,
    "long tables",
    lambda: st.fixed_dictionaries(
        {"table": long_tables(), "by": st.sampled_from(PERIODS),
         "residuals": st.sampled_from([None, False, True])}
    ),
    "a period with two counts",
    quick=30,
    weight=60,
)
def long_table(case):
    return aggregation(case)


@st.composite
def damage_cases(draw):
    table = draw(tables(5))
    n = draw(st.integers(1, 3))
    some = [draw(curves.sn(unit=table["unit"])) for _ in range(n)]
    for i in range(1, n):
        # curves that differ in one respect
        kind = draw(st.sampled_from(["other", "other", "intercepts",
                                     "endurance"]))
        if kind == "intercepts":
            some[i] = turns.lower(some[i - 1])
        elif kind == "endurance":
            some[i] = turns.other_end(some[i - 1])
    return {
        "table": table,
        "by": draw(st.sampled_from(PERIODS[:-1])),
        "curves": some,
        "factor": draw(st.sampled_from([1.0, 0.3, 0.1])),
        "names": draw(st.lists(st.sampled_from(["A", "B", "C"]),
                               min_size=n, max_size=n)),
        "form": draw(st.sampled_from(["single", "list", "list", "dict"])),
        "raw": draw(st.sampled_from([False, False, False, True])),
    }


@subtest(P, "damage", damage_cases, "some damage", quick=500, weight=8)
def damage(case):
    table, period = case["table"], case["by"]
    df, objects, times = make_table(table)
    agg = df if case["raw"] else quietly(aggregate_cc, df, period)
    specs = [scaled_curve(c, case["factor"]) for c in case["curves"]]
    if case["form"] == "single":
        specs = specs[:1]
    sn = [curves.make_sn(c, norm="N", environment="Air", curve=name)
          for c, name in zip(specs, case["names"])]
    arg = sn
    if case["form"] == "single":
        arg = sn[0]
    elif case["form"] == "dict":
        arg = {f"curve {i}": c for i, c in enumerate(sn)}
    got = call("damage", quietly, calc_aggregated_damage, agg, arg)
    groups = ([[i] for i in range(len(times))] if case["raw"] else
              groups_of(times, period))
    check(isinstance(got, pd.DataFrame), f"{type(got).__name__} of damage")
    check(len(got) == len(sn) * len(groups), f"{len(got)} rows for {len(sn)} curves and "
          f"{len(groups)} periods")
    check(sorted(map(str, got.columns)) == sorted(objects),
          f"columns {list(got.columns)}")
    out = set()
    for name in objects:
        vals = floats(got[name].values, "damage")
        for k, spec in enumerate(specs):
            for row in range(len(groups)):
                cell = agg[name].iloc[row]
                have = vals[k * len(groups) + row]
                if not isinstance(cell, CycleCount):
                    check(have == 0, f"damage {have} without count")
                    out.add("no count")
                    continue
                rows = counts.rows_of(cell)
                if any(curves.at_endurance(spec, r[0]) for r in rows):
                    continue
                want = math.fsum(ref_damage(spec, r[0], r[2]) for r in rows)
                if not close(have, want, 1e-8):
                    fail(f"damage of {name} with curve {k} in period {row}: "
                         f"got {have}, expected {want}")
                if want:
                    out.add("damage")
    if "damage" not in out:
        return ()
    if len(set(case["names"][: len(sn)])) < len(sn):
        out.add("curves of the same name")
    return out | {case["form"], f"{len(sn)} curves",
                  "not aggregated" if case["raw"] else "aggregated"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "table": tables(4),
            "what": st.sampled_from(
                ["decreasing", "duplicate", "no times", "series", "list",
                 "curves"]
            ),
            "by": st.sampled_from(PERIODS),
        }
    ),
    "every case",
    quick=150,
    weight=4,
)
def rejection(case):
    df, _, times = make_table(case["table"])
    what, exc = case["what"], ValueError
    if what == "curves":
        agg = quietly(aggregate_cc, df, case["by"])
        rejects("curves that are none", (TypeError, AttributeError), quietly,
                calc_aggregated_damage, agg, ["m=3"])
        return {what}
    if what in ("decreasing", "duplicate"):
        if len(df) == 1:
            df = pd.concat([df, df])
            what = "duplicate"
        elif what == "decreasing":
            df = df.iloc[::-1]
        else:
            df = pd.concat([df, df.iloc[-1:]])
    else:
        exc = TypeError
        if what == "no times":
            df = df.reset_index(drop=True)
        elif what == "series":
            df = df.iloc[:, 0]
        else:
            df = [df]
    rejects(what, exc, quietly, aggregate_cc, df, case["by"])
    return {what}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "aggregation", {
    "period": turns.part("by"),
    "residuals": turns.part("residuals"),
    "other signals": turns.changed("table", by=lambda table: dict(
        table, cols=[
            [name, [turns.other_signals(c)
                    if isinstance(c, dict) and "op" in c else c
                    for c in cells]]
            for name, cells in table["cols"]])),
}, quick=160)
turns.in_turn(P, "damage", {
    "period": turns.part("by"),
    "factor": turns.part("factor"),
    "curves": turns.changed("curves", by=lambda cs: [
        turns.lower(c) for c in cs]),
    "endurance": turns.changed("curves", by=lambda cs: [
        turns.other_end(c) for c in cs]),
}, quick=100)
