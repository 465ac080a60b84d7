"""P07: operations do not alter what they are applied to."""

from __future__ import annotations

import datetime as dt
import warnings

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from matplotlib.axes import Axes
from matplotlib.figure import Figure

from py_fatigue import CycleCount, ParisCurve, SNCurve
from py_fatigue import testing
from py_fatigue.cycle_count import binned_rainflow, calc_rainflow, pbar_sum
from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count import rainflow as rf
from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
from py_fatigue.cycle_count.utils import solve_lffd
from py_fatigue.damage import stress_life as sl
from py_fatigue.damage.crack_growth import get_crack_growth
from py_fatigue.geometry import AbstractCrackGeometry
from py_fatigue.mean_stress import MeanStress
from py_fatigue.mean_stress import corrections as msc
from py_fatigue.stress_range import StressRange

from pbt import counts, cracks, curves, gen
from pbt.core import check, subtest
from pbt.props.p15 import RULES

P = "P07"

COUNT = ["count_cycle", "stress_range", "mean_stress", "residuals_sequence",
         "min_max_sequence", "time_sequence", "timestamp", "unit", "name",
         "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound",
         "mean_bin_width", "nr_small_cycles", "stress_concentration_factor",
         "lffd_solved", "mean_stress_corrected"]
SN = ["slope", "intercept", "endurance", "environment", "curve", "norm",
      "unit", "color", "name"]
PARIS = ["slope", "intercept", "threshold", "critical", "environment",
         "curve", "norm", "unit", "color", "name"]
GROWTH = ["stress_range", "count_cycle", "crack_depth", "sif", "failure",
          "geometry_factor", "final_cycles"]


def canon(obj):
    """A value that is equal for equal content only, deep enough to keep."""
    if isinstance(obj, CycleCount):
        return ("count",) + tuple(canon(getattr(obj, k)) for k in COUNT)
    if isinstance(obj, SNCurve):
        return ("sn",) + tuple(canon(getattr(obj, k)) for k in SN)
    if isinstance(obj, ParisCurve):
        return ("paris",) + tuple(canon(getattr(obj, k)) for k in PARIS)
    if isinstance(obj, AbstractCrackGeometry):
        return ("geometry", type(obj).__name__) + tuple(
            (k, canon(v)) for k, v in sorted(vars(obj).items())
            if not k.startswith("_"))
    if isinstance(obj, pd.DataFrame):
        return ("frame", tuple(map(str, obj.columns)),
                tuple(map(str, obj.index)),
                tuple(canon(list(obj[c])) for c in obj.columns))
    if isinstance(obj, pd.Series):
        return ("series", tuple(map(str, obj.index)), canon(list(obj)))
    if isinstance(obj, Axes):
        return ("axes",
                tuple(canon([ln.get_xdata(), ln.get_ydata()])
                      for ln in obj.lines),
                tuple(canon([c.get_offsets().data, c.get_array()])
                      for c in obj.collections))
    if isinstance(obj, Figure):
        return ("figure", len(obj.axes))
    if isinstance(obj, np.ma.MaskedArray):
        return ("masked", canon(obj.filled(np.nan)))
    if isinstance(obj, np.ndarray):
        return ("array", obj.shape, canon(obj.ravel().tolist()))
    if isinstance(obj, dict):
        return ("dict", tuple((str(k), canon(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return ("list",) + tuple(canon(v) for v in obj)
    if isinstance(obj, (bool, np.bool_)):
        return bool(obj)
    if isinstance(obj, (int, float, np.integer, np.floating)):
        return repr(float(obj))
    if obj is None or isinstance(obj, (str, dt.datetime)):
        return obj
    if all(hasattr(obj, k) for k in GROWTH):
        return ("growth",) + tuple(canon(getattr(obj, k)) for k in GROWTH)
    return type(obj).__name__


def close_figures(result):
    out = canon(result)
    plt.close("all")
    return out


def table(ccs):
    times = pd.DatetimeIndex([c.timestamp for c in ccs])
    col = np.empty(len(ccs), dtype=object)
    col[:] = ccs
    return pd.DataFrame({"CC_a": pd.Series(col, index=times, dtype=object)})


def frame_op(name):
    def run(p):
        df = p.count.to_df()
        if name == "damage":
            return df.miner.damage(p.sn)
        if name == "des":
            return df.miner.des(p.arg + 1)
        if name == "dem":
            return df.miner.dem(2.0, 1.0, p.arg + 1)
        if name == "gassner":
            return df.gassner.g(p.sn)
        if name == "plot":
            return df.miner.damage(p.sn).miner.plot_histogram()
        return df.cg.calc_growth(p.paris, p.geometry, p.arg > 1)

    return run


def aggregated(p):
    data = table([p.count, p.other] if p.later() else [p.count])
    before = canon(data)
    out = aggregate_cc(data, ["all", "D", "M"][p.n % 3])
    check(canon(data) == before, "aggregating altered the table")
    return out


def aggregated_damage(p):
    data = table([p.count])
    data = aggregate_cc(data, "all")
    data = data[0] if isinstance(data, tuple) else data
    before = canon(data)
    out = calc_aggregated_damage(data, [p.sn, p.sn2])
    check(canon(data) == before, "damage of the table altered it")
    return out


def summed(how):
    def run(p):
        ccs = [p.count, p.other] if p.later() else [p.count]
        if how == "pbar":
            # enough entries for pieces of two
            ccs.extend([None, None])
        before = list(ccs)
        out = pbar_sum(ccs) if how == "pbar" else sum(ccs)
        check(len(ccs) == len(before)
              and all(a is b for a, b in zip(ccs, before)),
              "summing altered the list of counts")
        return out

    return run


def grown(p):
    total = p.count
    total += p.other
    return total


def corrected(kind):
    def run(p):
        kwargs = {"dnv": {"correction_type": "dnvgl-rp-c203",
                          "detail_factor": [0.6, 0.8][p.n % 2]},
                  "walker": {"correction_type": "walker", "gamma": 0.4},
                  "swt": {"correction_type": "swt"}}[kind]
        return p.count.mean_stress_correction(
            enforce_pulsating_load=p.n % 3 != 0, **kwargs)

    return run


def hist(p):
    n = min(len(p.array), len(p.array2))
    return p.array[:n], p.array2[:n]


def mapped(p):
    x, y = hist(p)
    table_, edg = ht.make_histogram(x, y, bins=p.n % 5 + 1)
    before = canon([table_, edg])
    out = ht.map_hist(x, y, table_, edg)
    check(canon([table_, edg]) == before, "mapping altered the histogram")
    return out


def stress_class(cls):
    def run(p):
        obj = cls(_counts=p.weights, _values=p.array, bin_width=p.arg)
        return [obj.bin_edges, obj.full, obj.half, obj.bins_idx,
                obj.binned_values, obj.counts, obj.values]

    return run


# Operations take a picker of objects and return what they computed. Arrays
# that an operation gets are those of the pool, not copies.
OPS = {
    # counts
    "scale": lambda p: p.count * p.arg,
    "scale from the left": lambda p: p.arg * p.count,
    "add": lambda p: p.count + p.other,
    "add in place": grown,
    "sum": summed("sum"),
    "pbar_sum": summed("pbar"),
    "solve": lambda p: p.count.solve_lffd(
        ["residuals", "min-max"][p.n % 2]),
    "solve function": lambda p: solve_lffd(p.count),
    "resolve residuals": lambda p: p.count.resolve_residuals(),
    "correct dnv": corrected("dnv"),
    "correct walker": corrected("walker"),
    "correct swt": corrected("swt"),
    "correct and plot": lambda p: p.count.mean_stress_correction(
        detail_factor=0.8, plot=True, enforce_pulsating_load=True),
    "as_dict": lambda p: p.count.as_dict(
        legacy_export=p.n % 2 == 1, round_decimals=p.n % 4 + 1),
    "to_df": lambda p: p.count.to_df(),
    "text": lambda p: [str(p.count), p.count._repr_html_()],
    "derived": lambda p: [
        p.count.full_cycles, p.count.half_cycles, p.count.residuals,
        p.count.min_stress, p.count.max_stress, p.count.stress_amplitude,
        p.count.statistical_moments],
    "bins": lambda p: [p.count.bin_edges, p.count.bin_centers,
                       p.count.mean_bin_upper_bound,
                       p.count.range_bin_upper_bound],
    "compare": lambda p: [p.count == p.other, p.count != p.other],
    "plot": lambda p: p.count.plot_histogram(
        ["min-max", "mean-range", "counts-range",
         "counts-range-cumsum"][p.n % 4]),
    "plot residuals": lambda p: p.count.plot_residuals_sequence(),
    "frame damage": frame_op("damage"),
    "frame des": frame_op("des"),
    "frame dem": frame_op("dem"),
    "frame gassner": frame_op("gassner"),
    "frame growth": frame_op("growth"),
    "frame plot": frame_op("plot"),
    "damage": lambda p: sl.get_pm(p.count, p.sn),
    "des": lambda p: sl.get_des(p.count, p.arg + 1),
    "dem": lambda p: sl.get_dem(2.0, 1.0, p.count, p.arg + 1),
    "nonlinear": lambda p: sl.get_nonlinear_damage(
        sorted(RULES)[p.n % len(RULES)], p.count, p.sn),
    "growth": lambda p: get_crack_growth(p.count, p.paris, p.geometry,
                                         p.n % 2 == 1),
    "aggregate": aggregated,
    "aggregated damage": aggregated_damage,
    # curves
    "compare curves": lambda p: [p.sn == p.sn2, p.sn == p.paris],
    "curve text": lambda p: [str(p.sn), str(p.paris)],
    "curve plot": lambda p: [p.sn.plot(p.positive, p.positive),
                             p.paris.plot(p.positive, p.positive)],
    "knees": lambda p: [p.sn.get_knee_stress(), p.sn.get_knee_cycles(),
                        p.paris.get_knee_sif(),
                        p.paris.get_knee_growth_rate(), p.sn.endurance_stress],
    "check knees": lambda p: [
        p.sn.get_knee_stress(check_knee=p.sn.get_knee_cycles()),
        p.paris.get_knee_sif(check_knee=p.paris.get_knee_sif())],
    "cycles": lambda p: [p.sn.get_cycles(p.positive), p.sn.n(p.positive)],
    "stress": lambda p: [p.sn.get_stress(p.positive), p.sn.sigma(p.positive)],
    "plotly": lambda p: [
        (d.x, d.y) for d in p.sn.plotly(p.positive, p.positive)[0]],
    "rate": lambda p: p.paris.get_growth_rate(p.positive),
    "sif": lambda p: p.paris.get_sif(p.positive),
    "make curves": lambda p: [
        SNCurve(p.slopes, p.slopes, color="#112233"),
        ParisCurve(p.slopes, p.slopes, color="#112233")],
    # arrays
    "count": lambda p: CycleCount.from_timeseries(p.array, p.times),
    "count without time": lambda p: CycleCount.from_timeseries(
        p.array, range_bin_width=p.arg, mean_bin_width=p.arg),
    "rainflow": lambda p: calc_rainflow(p.array, p.times,
                                        extended_output=p.n % 2 == 1),
    "binned rainflow": lambda p: binned_rainflow(p.array, p.times),
    "reversals": lambda p: [rf.findtp(p.array), rf.findextrema(p.array)],
    "crossings": lambda p: rf.findcross(
        p.array, p.arg, [None, "u", "d", "du", "all"][p.n % 5]),
    "dnv": lambda p: msc.dnvgl_mean_stress_correction(
        p.array, p.positive, [0.6, 0.8][p.n % 2]),
    "walker": lambda p: msc.walker_mean_stress_correction(
        p.array, p.positive, 0.4),
    "swt": lambda p: msc.swt_mean_stress_correction(p.array, p.positive),
    "plain damage": lambda p: sl.calc_pm(p.positive, p.weights, p.sn),
    "plain des": lambda p: sl.calc_des(p.positive, p.weights, p.arg + 1),
    "plain dem": lambda p: sl.calc_dem(2.0, 1.0, p.positive, p.weights,
                                       p.arg + 1),
    "plain nonlinear": lambda p: sl.calc_nonlinear_damage(
        sorted(RULES)[p.n % len(RULES)], p.positive, p.weights, p.sn),
    "histogram": lambda p: ht.make_histogram(
        p.array, p.positive, weights=p.weights, bins=p.n % 5 + 1,
        normed=p.n % 2 == 1),
    "map": mapped,
    "density": lambda p: ht.xy_hist2d(
        p.array, p.positive, mode=["mountain", "valley"][p.n % 2],
        bins=4, weights=p.weights),
    "mean stress": stress_class(MeanStress),
    "stress range": stress_class(StressRange),
    "random data": lambda p: testing.get_random_data(p.times, seed=p.n),
}


class Picker:
    """Objects of the pool that an operation uses."""

    def __init__(self, pool, i, j, n, arg):
        self._pool, self._i, self._j = pool, i, j
        self.n, self.arg = n, arg

    @property
    def count(self):
        return self._pool["counts"][self._i % self._pool["now"]]

    @property
    def other(self):
        return self._pool["counts"][self._j % self._pool["now"]]

    def later(self):
        return max(counts.times_of(self.count)) < min(
            counts.times_of(self.other))

    def __getattr__(self, name):
        return self._pool[name]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    specs, start = [], 0
    for _ in range(n):
        spec = draw(counts.counts(depth=1, start=start))
        specs.append(spec)
        start += 200000
    size = draw(st.integers(3, 9))
    array = draw(gen.varying(st.lists(gen.grid(-30, 30, 0.5), min_size=size,
                                      max_size=size)))
    size = len(array)
    ops = draw(st.lists(
        st.tuples(
            st.sampled_from(sorted(OPS)),
            st.integers(0, 20), st.integers(0, 20), st.integers(0, 11),
            st.sampled_from([0.5, 2, 1.5, 1.0, 3.0]),
        ).map(list), min_size=2, max_size=10))
    return {
        "counts": specs,
        "sn": draw(curves.sn(branches=(1, 3))),
        "sn2": draw(curves.sn(branches=(1, 2))),
        "paris": draw(curves.paris(branches=(1, 3))),
        "geometry": draw(st.one_of(cracks.surface(), cracks.cylinder())),
        "array": array,
        "positive": draw(st.lists(gen.grid(0.5, 200, 0.5), min_size=size,
                                  max_size=size)),
        "weights": draw(st.lists(st.sampled_from([1.0, 0.5, 2.0, 3.0]),
                                 min_size=size, max_size=size)),
        "slopes": draw(st.lists(gen.grid(1, 5, 0.5), min_size=2, max_size=2,
                                unique=True)),
        "lists": draw(st.booleans()),
        "ops": ops,
    }


POOL = ["sn", "sn2", "paris", "geometry", "array", "array2", "positive",
        "weights", "times", "slopes"]


def make_pool(case):
    arr = np.array
    array = arr(case["array"])
    pool = {
        "counts": [counts.make(s)[0] for s in case["counts"]],
        "sn": curves.make_sn(case["sn"], color="#123456"),
        "sn2": curves.make_sn(case["sn2"], color="#654321"),
        "paris": curves.make_paris(case["paris"], color="#123456"),
        "geometry": cracks.make(case["geometry"]),
        "array": array.tolist() if case["lists"] else array,
        "array2": arr(case["positive"])[::-1].copy(),
        "positive": arr(case["positive"]),
        "weights": arr(case["weights"]),
        "times": np.arange(len(array)) / 4.0,
        "slopes": arr(case["slopes"]),
    }
    pool["now"] = len(pool["counts"])
    return pool


def run(name, picker):
    """What the operation gives, as a value to compare, and the object."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            got = OPS[name](picker)
            return close_figures(got), got
        except Exception as exc:  # pylint: disable=broad-except
            if type(exc).__name__ == "Violation":
                raise
            plt.close("all")
            return ("raised", type(exc).__name__), None


@subtest(P, "histories", cases, "an operation that gives a result",
         quick=700, weight=6)
def histories(case):
    pool = make_pool(case)
    state = {k: canon(pool[k]) for k in POOL}
    states = [canon(c) for c in pool["counts"]]
    names = [f"count {i}" for i in range(len(states))]

    def unchanged(what):
        for key in POOL:
            check(canon(pool[key]) == state[key],
                  f"{what} altered {key}: {canon(pool[key])} instead of "
                  f"{state[key]}")
        for cc, was, name in zip(pool["counts"], states, names):
            now = canon(cc)
            if now != was:
                attr = [k for k, a, b in zip(COUNT, now[1:], was[1:])
                        if a != b]
                check(False, f"{what} altered {', '.join(attr)} of {name}")

    done, out = [], set()
    for step, (name, i, j, n, arg) in enumerate(case["ops"]):
        now = len(pool["counts"])
        pool["now"] = now
        picker = Picker(pool, i, j, n, arg)
        first, obj = run(name, picker)
        unchanged(name)
        again, _ = run(name, picker)
        unchanged(f"{name} again")
        check(first == again, f"{name} gives another result when repeated: "
              f"{str(again)[:300]} after {str(first)[:300]}")
        done.append((name, i, j, n, arg, now, first))
        if first[0] != "raised":
            out.add(name)
        if isinstance(obj, CycleCount):
            pool["counts"].append(obj)
            states.append(canon(obj))
            names.append(f"the result of {name} (step {step})")
    for name, i, j, n, arg, now, first in done:
        pool["now"] = now
        last, _ = run(name, Picker(pool, i, j, n, arg))
        check(first == last, f"{name} gives another result at the end: "
              f"{str(last)[:300]}, first {str(first)[:300]}")
    unchanged("repeating all")
    return out
