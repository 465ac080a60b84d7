"""P09: reading saved counts, and saving and reading again."""

from __future__ import annotations

import copy
import json

import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount

from pbt import counts, gen, match, turns
from pbt.core import check, fail, number, rejects, same, same_number
from pbt.core import subtest
from pbt.props.p08 import bounds_of, kwargs_of, options
from pbt.props.p25 import correct

P = "P09"


def small_int():
    return st.sampled_from([0, 0, 1, 1, 2, 3, 7, 0.0, 1.0, 2.0, 40, 0.5,
                            2.5, 300, 40000])


@st.composite
def saved(draw):
    """Saved data of either format, as JSON text would give it."""
    with_mean = draw(st.booleans())
    rlb = draw(st.one_of(gen.grid(0, 4, 0.25), st.just(0.2)))
    rw = draw(st.one_of(gen.grid(0.25, 8, 0.25),
                        st.sampled_from([0.05, 0.1, 1 / 3, 0.123456])))
    data = {"range_bin_lower_bound": rlb, "range_bin_width": rw}
    line = st.lists(small_int(), max_size=draw(
        st.sampled_from([8, 8, 8, 60])))
    number_ = st.one_of(gen.grid(0.5, 100, 0.25), gen.floats(0.5, 100))
    if with_mean:
        data["mean_bin_lower_bound"] = draw(gen.grid(-60, 20, 0.5))
        data["mean_bin_width"] = draw(
            st.one_of(gen.grid(0.5, 16, 0.5), st.just(10),
                      st.sampled_from([0.123456, 1 / 3])))
        data["hist"] = draw(st.lists(line, max_size=5))
        mean = st.one_of(gen.grid(-30, 30, 0.25), gen.floats(-90, 90))
        pair = st.tuples(mean, number_).map(list)
    else:
        data["hist"] = draw(line)
        pair = number_
    data["lg_c"] = draw(st.lists(pair, max_size=5))
    data["res"] = draw(st.lists(pair, max_size=5))
    data["nr_small_cycles"] = draw(st.integers(0, 2000))
    if not any(r[2] for r in counts.model_saved(data)):
        data["res"] = data["res"] + [[1.0, 5.0] if with_mean else 5.0]
    res_sig = draw(st.one_of(
        st.none(), st.lists(gen.grid(-30, 30, 0.25), min_size=2,
                            max_size=8)))
    how = draw(st.sampled_from(["missing", "none"]))
    if res_sig is not None or how == "none":
        data["res_sig"] = res_sig
    if not data["hist"] and draw(st.booleans()):
        del data["hist"]
    if draw(st.booleans()):
        data["as_dur"] = 600.0
    # older names
    if not with_mean and draw(st.booleans()):
        data["bin_lb"] = data.pop("range_bin_lower_bound")
        data["bin_width"] = data.pop("range_bin_width")
    if draw(st.booleans()):
        data["no_sm_c"] = data.pop("nr_small_cycles")
    return data


def with_new_names(data):
    new = dict(data)
    for old, name in (("bin_lb", "range_bin_lower_bound"),
                      ("bin_width", "range_bin_width"),
                      ("no_sm_c", "nr_small_cycles")):
        if old in new:
            new[name] = new.pop(old)
    return new


@subtest(
    P,
    "reading",
    lambda: st.fixed_dictionaries(
        {
            "data": saved(),
            "json": st.booleans(),
            "minute": st.integers(0, 10**6),
            "name": st.sampled_from([None, "A"]),
            "unit": st.sampled_from([None, "MPa", "ksi"]),
            "decimals": st.sampled_from([None, 4, 6, 2]),
            "flags": st.booleans(),
        }
    ),
    "every case (one cycle at least)",
    quick=1800,
    weight=2,
)
def reading(case):
    data = copy.deepcopy(case["data"])
    if case["json"]:
        data = json.loads(json.dumps(data))
    kwargs = {}
    for key in ("name", "unit"):
        if case[key] is not None:
            kwargs[key] = case[key]
    if case["decimals"] is not None:
        kwargs["round_decimals"] = case["decimals"]
    if case["flags"]:
        kwargs["lffd_solved"] = True
        kwargs["mean_stress_corrected"] = "yes, SWT"
    when = counts.stamp(case["minute"])
    cc = CycleCount.from_rainflow(data, timestamp=when, **kwargs)
    data = with_new_names(case["data"])
    want = counts.model_saved(data)
    dec = 4 if case["decimals"] is None else case["decimals"]
    # one entry per bin, large cycle and residual
    rows = counts.rows_of(cc)
    check(len(rows) == len(want),
          f"{len(rows)} entries instead of {len(want)}")
    eps = 0.5000001 * 10.0**-dec
    # only the ranges of the bins are rounded
    plain = len(data["lg_c"]) + len(data["res"])
    opts = []
    for i, w in enumerate(want):
        tol = eps if i < len(want) - plain else 0.0
        opts.append(
            [k for k, r in enumerate(rows)
             if abs(r[0] - w[0]) <= tol + 1e-12 * abs(w[0])
             and abs(r[1] - w[1]) <= 1e-12 * (100 + abs(w[1]))
             and r[2] == w[2]])
    where = match.assign(opts, {k: 1 for k in range(len(rows))})
    for w, slot in zip(want, where):
        check(slot is not None, f"entry (range, mean, count) {w} is missing "
              f"in {rows[:12]}")
    # the order is that of histogram, large cycles, residuals
    res = data.get("res_sig")
    same(counts.seq_of(cc.residuals_sequence), res or [],
         "residual sequence", 0)
    check(cc.timestamp == when, f"timestamp {cc.timestamp}")
    check(counts.times_of(cc) == [when], "time sequence")
    check(cc.name == case["name"], f"name {cc.name!r}")
    check(cc.unit == (case["unit"] or "MPa"), f"unit {cc.unit!r}")
    same_number(cc.nr_small_cycles, data["nr_small_cycles"], "small cycles")
    same_number(cc.range_bin_lower_bound, data["range_bin_lower_bound"],
                "range bound")
    same_number(cc.range_bin_width, data["range_bin_width"], "range width")
    with_mean = "mean_bin_width" in data
    if with_mean:
        same_number(cc.mean_bin_lower_bound, data["mean_bin_lower_bound"],
                    "mean bound")
        same_number(cc.mean_bin_width, data["mean_bin_width"], "mean width")
    check(bool(cc.lffd_solved) == case["flags"], "resolved state")
    check(cc.mean_stress_corrected == ("yes, SWT" if case["flags"]
                                       else "No"), "correction state")
    out = {"with mean" if with_mean else "without mean"}
    for key in ("hist", "lg_c", "res", "res_sig"):
        out.add(key if data.get(key) else f"no {key}")
    if "bin_lb" in case["data"]:
        out.add("older bin names")
    if "no_sm_c" in case["data"]:
        out.add("older small cycles name")
    return out


@st.composite
def trips(draw):
    return {
        "cc": draw(counts.counts(depth=2)),
        "corr": draw(st.sampled_from([None] * 5 + ["dnv", "swt"])),
        "opts": [draw(options()) for _ in range(draw(st.integers(1, 3)))],
        "legacy": draw(st.integers(0, 3)) == 0,
        "json": draw(st.booleans()),
        "minute": draw(st.integers(0, 10**6)),
    }


def moved(before, after, tol_range, tol_mean, what, first=None):
    """Cycles before and after, each moved by no more than the tolerance;
    means below the bins (bound, width) ``first`` may go to the first bin."""

    def near(a, b):
        if tol_mean is None or abs(a - b) <= tol_mean:
            return True
        return first is not None and a < first[0] and abs(
            first[0] + first[1] / 2 - b) <= tol_mean - first[1] / 2

    check(len(before) == len(after),
          f"{what}: {len(after)} cycles after, {len(before)} before")
    opts = [
        [k for k, b in enumerate(after)
         if abs(a[0] - b[0]) <= tol_range
         and near(a[1], b[1])]
        for a in before
    ]
    where = match.assign(opts, {k: 1 for k in range(len(after))})
    for a, slot in zip(before, where):
        if slot is None:
            fail(f"{what}: cycle with range {a[0]} and mean {a[1]} is not "
                 f"found again; before {sorted(before)[:12]}, after "
                 f"{sorted(after)[:12]}")


@subtest(P, "round trips", trips, "a full cycle", quick=1000, weight=4)
def round_trip(case):
    cc = correct(counts.make(case["cc"])[0], case["corr"])
    legacy = case["legacy"]
    out = counts.labels_of(case["cc"])
    for opts in case["opts"]:
        rlb, rw, mlb, mw = bounds_of(cc)
        # a cycle on the lowest bound may be rounded away
        rows = counts.rows_of(cc)
        if any(abs(r[0] - rlb) < 1e-9 for r in rows):
            out.add("on the lowest bound")
        kept = [r for r in rows if r[0] >= rlb]
        if not kept:
            # nothing is saved but the number of small cycles
            return ()
        data = cc.as_dict(legacy_export=legacy, **kwargs_of(opts))
        if case["json"]:
            data = json.loads(json.dumps(data, default=np.generic.item))
        when = counts.stamp(case["minute"])
        new = CycleCount.from_rainflow(
            data, timestamp=when, unit=cc.unit, name=cc.name)
        eps = 10.0 ** -(4 if opts["decimals"] is None else opts["decimals"])
        eps = max(eps, 1e-4)  # centers are read with four decimals
        scale = 1e-12 * max(abs(v) for r in rows for v in r[:2])
        after = counts.rows_of(new)

        def full(rows):
            return [r[:2] for r in rows for _ in range(int(r[2]))]

        def half(rows):
            return [r[:2] for r in rows if r[2] % 1 == 0.5]

        moved(full(kept), full(after), rw / 2 + eps + scale,
              None if legacy else mw / 2 + eps + scale, "full cycles",
              (mlb, mw))
        moved(half(kept), half(after), eps + scale,
              None if legacy else eps + scale, "half cycles")
        same(counts.seq_of(new.residuals_sequence),
             counts.seq_of(cc.residuals_sequence), "residual sequence",
             1e-12, eps)
        check(new.unit == cc.unit, f"unit {new.unit!r}")
        check(new.name == cc.name, f"name {new.name!r}")
        check(new.timestamp == when, f"timestamp {new.timestamp}")
        n_low = len(rows) - len(kept)
        check(number(new.nr_small_cycles, "small cycles")
              >= number(cc.nr_small_cycles, "small cycles") + n_low,
              "small cycles are lost")
        same_number(new.range_bin_lower_bound, rlb, "range bound", 1e-9)
        same_number(new.range_bin_width, rw, "range width", 1e-9)
        if not full(kept):
            return ()
        cc = new
    if legacy:
        out.add("without mean")
    return out | {f"{len(case['opts'])} trips"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "data": saved(),
            "what": st.sampled_from(
                ["unknown key", "both bounds", "empty", "zeros",
                 "empty lines"]
            ),
            "key": st.sampled_from(["foo", "histogram", "lgc", "Res",
                                    "mean_bin_upper_bound", "unit"]),
        }
    ),
    "every case",
    quick=300,
)
def rejection(case):
    data, what = copy.deepcopy(case["data"]), case["what"]
    if what == "unknown key":
        data[case["key"]] = 1.0
        rejects(what, KeyError, CycleCount.from_rainflow, data)
        return {what, case["key"]}
    if what == "both bounds":
        data = with_new_names(data)
        data["bin_lb"] = data["range_bin_lower_bound"]
        data["bin_width"] = data["range_bin_width"]
        rejects(what, KeyError, CycleCount.from_rainflow, data)
        return {what}
    with_mean = "mean_bin_width" in data
    data["lg_c"], data["res"] = [], []
    data["hist"] = {
        "empty": [],
        "zeros": [[0, 0], [0]] if with_mean else [0, 0],
        "empty lines": [[], []] if with_mean else [],
    }[what]
    rejects(what, ValueError, CycleCount.from_rainflow, data)
    return {what, "with mean" if with_mean else "without mean"}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "reading", {
    "data": turns.part("data"),
    "time": turns.part("minute"),
    "name": turns.part("name"),
    "unit": turns.part("unit"),
}, quick=450)
