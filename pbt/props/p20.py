"""P20: the stress unit."""

from __future__ import annotations

import copy
import json
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.cycle_count import pbar_sum
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.damage.stress_life import get_nonlinear_damage, get_pm
from py_fatigue.geometry import InfiniteSurface

from pbt import counts, curves, gen
from pbt.core import call, check, observing, rejects, subtest
from pbt.props.p15 import RULES
from pbt.props.p25 import correct

P = "P20"
UNITS = ["MPa", "ksi", "Pa", "kPa", "GPa", "psi", "N/mm²", "MPA", "mPa",
         "MPa2", "MPa ", " MPa"]
# pairs of which the names differ little
NEAR = [("MPa", "MPA"), ("MPa", "mPa"), ("MPa", "Pa"), ("MPa", "MPa2"),
        ("MPa", "MPa "), ("MPa", " MPa"), ("kPa", "Pa"), ("GPa", "Pa"), ("mPa", "MPA"), ("ksi", "psi")]


def two_units():
    return st.one_of(
        st.sampled_from(NEAR + [(b, a) for a, b in NEAR]),
        st.tuples(st.sampled_from(UNITS), st.sampled_from(UNITS))
        .filter(lambda ab: ab[0] != ab[1]))


def table(ccs):
    times = pd.DatetimeIndex([c.timestamp for c in ccs])
    col = np.empty(len(ccs), dtype=object)
    col[:] = ccs
    return pd.DataFrame({"CC_a": pd.Series(col, index=times, dtype=object)})


def saved_again(cc, legacy, text):
    data = cc.as_dict(legacy_export=legacy)
    if text:
        data = json.loads(json.dumps(data, default=np.generic.item))
    return CycleCount.from_rainflow(data, timestamp=cc.timestamp,
                                    unit=cc.unit)


@st.composite
def histories(draw):
    unit = draw(st.sampled_from([None] + UNITS))
    spec_unit = unit or "MPa"
    starts, minute = [], 0
    for _ in range(draw(st.integers(1, 3))):
        starts.append(draw(counts.any_leaf(minute, spec_unit, "s")))
        minute += draw(st.sampled_from([1, 10, 1440]))
    ops = draw(st.lists(
        st.one_of(
            st.tuples(st.just("mul"), st.sampled_from([0.5, 2, 1.5])),
            st.tuples(st.just("rmul"), st.sampled_from([0.5, 2, 1.5])),
            st.tuples(st.just("add"), st.booleans()),
            st.tuples(st.just("sum"), st.just(0)),
            st.tuples(st.just("pbar"), st.just(0)),
            st.tuples(st.just("solve"),
                      st.sampled_from(["residuals", "min-max"])),
            st.tuples(st.just("correct"),
                      st.sampled_from(["dnv", "walker", "swt"])),
            st.tuples(st.just("save"), st.booleans()),
            st.tuples(st.just("table"), st.sampled_from(["all", "D"])),
            st.tuples(st.just("frame"), st.just(0)),
        ).map(list),
        min_size=1, max_size=6))
    return {"given": unit is not None, "unit": spec_unit, "starts": starts,
            "ops": ops}


def with_default(spec, given):
    """Build without naming the unit when it is the default."""
    if given or spec["op"] != "rf":
        return counts.make(spec)[0]
    return CycleCount.from_rainflow(
        copy.deepcopy(spec["data"]), timestamp=counts.stamp(spec["t"]),
        name=spec["name"])


def may_be_saved(cc):
    rows = counts.rows_of(cc)
    return any(r[0] > cc.range_bin_lower_bound for r in rows)


@subtest(P, "histories", histories, "an operation on a count", quick=900,
         weight=4)
def history(case):
    unit = case["unit"]
    pool = [with_default(s, case["given"]) for s in case["starts"]]
    for cc in pool:
        check(cc.unit == unit, f"made with unit {cc.unit!r}, given {unit!r}")
    cur = pool[0]
    out = {unit if case["given"] else "default"}
    others = pool[1:]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op, arg in case["ops"]:
            before = cur
            if op == "mul":
                cur = cur * arg
            elif op == "rmul":
                cur = arg * cur
            elif op in ("add", "sum", "pbar", "table"):
                later = [c for c in others if min(counts.times_of(c))
                         > max(counts.times_of(cur))]
                if op == "add" and later:
                    cur = cur + later[0]
                elif op == "sum":
                    cur = sum([cur] + later[:1])
                elif op == "pbar":
                    cur = pbar_sum([cur, None] + later)
                elif op == "table":
                    agg = aggregate_cc(table([cur] + later), arg)
                    with observing("aggregated table"):
                        for cell in agg["CC_a"]:
                            check(cell.unit == unit,
                                  f"unit {cell.unit!r} in a table")
                        cur = agg["CC_a"].iloc[-1]
            elif op == "solve":
                cur = cur.solve_lffd(arg)
            elif op == "correct":
                cur = correct(cur, arg)
            elif op == "save":
                if may_be_saved(cur):
                    cur = saved_again(cur, arg, True)
            elif op == "frame":
                with observing("dataframe"):
                    have = cur.to_df()._metadata["unit"]
                check(have == unit, f"unit {have!r} of the dataframe")
            check(isinstance(cur, CycleCount), f"{op}: no count")
            check(cur.unit == unit,
                  f"unit {cur.unit!r} after {op}, {unit!r} before")
            if cur is not before:
                out.add(op)
    return out


@st.composite
def pairs(draw):
    first, other = draw(two_units())
    return {
        "a": draw(counts.counts(depth=1, unit=first)),
        "b": draw(counts.counts(depth=1, unit=other, start=100000)),
        "solved": draw(st.booleans()),
    }


@subtest(P, "adding different units", pairs, "every case", quick=300,
         weight=2)
def different(case):
    a, b = (counts.make(case[k])[0] for k in "ab")
    check(a.unit != b.unit, "units are not those given")
    what = f"adding {a.unit} and {b.unit}"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["solved"]:
            a, b = a.solve_lffd(), b.solve_lffd()
        err = (TypeError, ValueError)
        rejects(what, err, lambda: a + b)
        rejects(what + " by sum", err, sum, [a, b])
        rejects(what + " by pbar_sum", err, pbar_sum, [a, b])
        rejects(what + " in a table", err, aggregate_cc, table([a, b]), "all")
    return {"solved" if case["solved"] else "as counted"}


@st.composite
def curve_cases(draw):
    unit, other = draw(two_units())
    if draw(st.integers(0, 3)) == 0:
        other = unit
    how = draw(st.sampled_from(["damage", "growth"]))
    case = {"unit": unit, "other": other, "how": how,
            "cc": draw(counts.counts(depth=1, unit=unit)),
            "rule": draw(st.sampled_from(sorted(RULES)))}
    if how == "growth":
        # the unit of the curve begins with that of the stress
        if other.startswith(unit):
            case["other"] = other = unit
        tail = draw(st.sampled_from([" √mm", " √m", "√mm", "√in", " m^0.5"]))
        case["curve"] = draw(curves.paris(unit=other + tail))
        case["depth"] = draw(gen.grid(0.25, 10, 0.25))
    else:
        case["curve"] = draw(curves.sn(unit=other))
    return case


@subtest(P, "curves of another unit", curve_cases, "every case", quick=500,
         weight=3)
def other_curves(case):
    cc, _ = counts.make(case["cc"])
    how, same = case["how"], case["unit"] == case["other"]
    ways = {}
    if how == "growth":
        curve = curves.make_paris(case["curve"])
        geo = InfiniteSurface(initial_depth=case["depth"])
        ways["growth"] = lambda: get_crack_growth(cc, curve, geo)
    else:
        curve = curves.make_sn(case["curve"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            agg = aggregate_cc(table([cc]), "all")
        ways["damage"] = lambda: get_pm(cc, curve)
        ways["damage of a dataframe"] = \
            lambda: cc.to_df().miner.damage(curve)
        ways["damage of a table"] = \
            lambda: calc_aggregated_damage(agg, curve)
        if not same:  # some rules fail for some spectra
            ways["nonlinear damage"] = \
                lambda: get_nonlinear_damage(case["rule"], cc, curve)
    check(curve.unit == case["curve"]["unit"],
          f"unit {curve.unit!r} of the curve")
    for way, fn in ways.items():
        if same:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                call(f"{way} with the same unit", fn)
        else:
            rejects(f"{way} of {case['unit']} with a curve in {curve.unit}",
                    (ValueError, TypeError), fn)
    return {("same unit, " if same else "") + how}
