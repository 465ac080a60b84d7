"""P08: exporting a count."""

from __future__ import annotations

import warnings

import numpy as np
from hypothesis import strategies as st

from py_fatigue.cycle_count.histogram import binned_rainflow

from pbt import counts, gen, match, turns
from pbt.core import check, close, fail, floats, number, observing, part
from pbt.core import same, same_number, subtest
from pbt.props.p25 import correct
from pbt.ref import rainflow as ref

P = "P08"
TOL = 2.1e-5  # edges and values are rounded to five decimals


def options():
    return st.fixed_dictionaries(
        {
            "tol": st.sampled_from([None, 0.001, 0.01, 0.1, 0.5, 1e-6, 2.0]),
            "exponent": st.sampled_from([None, 5.0, 3, 4.0, 1.0]),
            "decimals": st.sampled_from([None, None, 4, 2, 6, 1, 0]),
            "zeros": st.sampled_from([None, 0, 1, 8, 1000000, 1000000]),
        }
    )


def kwargs_of(opts, zeros="max_consecutive_zeros"):
    names = {
        "tol": "damage_tolerance_for_binning",
        "exponent": "damage_exponent",
        "decimals": "round_decimals",
        "zeros": zeros,
    }
    return {names[k]: v for k, v in opts.items() if v is not None}


def bins_of(value, lb, width):
    """The bins a value may be in; two when it is on an edge. Values below
    the first bin are in the first one."""
    k = (value - lb) / width
    tol = TOL / width + 1e-9 * (1 + abs(k))
    lo, hi = int(np.floor(k - tol)), int(np.floor(k + tol))
    return {max(0, lo), max(0, hi)}


def compare_export(got, rows, bounds, opts, what, legacy=False, small=0):
    """Export ``got`` of the entries ``rows``; returns labels."""
    rlb, rw, mlb, mw = bounds
    tol = 0.001 if opts["tol"] is None else opts["tol"]
    expo = 5.0 if opts["exponent"] is None else opts["exponent"]
    dec = 4 if opts["decimals"] is None else opts["decimals"]
    eps = 0.5000001 * 10.0**-dec
    out = set()
    # bins and small cycles
    same_number(part(got, "range_bin_lower_bound"), rlb, f"{what}: range bound")
    same_number(part(got, "range_bin_width"), rw, f"{what}: range bin width")
    if legacy:
        check("mean_bin_width" not in got, f"{what}: mean bins")
    else:
        same_number(part(got, "mean_bin_lower_bound"), mlb, f"{what}: mean bound")
        same_number(part(got, "mean_bin_width"), mw, f"{what}: mean bin width")
    # cycles on the lowest edge may be on either side of it by rounding
    ulp = 1e-12 * max(1.0, abs(rlb))
    low = [r for r in rows if r[0] < rlb - ulp]
    kept = [r for r in rows if r[0] > rlb + ulp]
    edge = [r for r in rows if abs(r[0] - rlb) <= ulp]
    exact = [r for r in edge if r[0] >= rlb]
    kept, low = kept + exact, low + [r for r in edge if r[0] < rlb]
    n_small = number(part(got, "nr_small_cycles"), f"{what}: small cycles") - small
    most = sum(max(1, r[2]) for r in low)
    check(len(low) <= n_small <= most,
          f"{what}: {n_small} small cycles, {len(low)} expected")
    if low:
        out.add("small cycles")
    # half cycles
    half = [(r[1], r[0]) for r in kept if r[2] % 1 == 0.5]
    pairs_match(part(got, "res"), half, eps, legacy, f"{what}: half cycles")
    rounded(part(got, "res"), dec, f"{what}: half cycles")
    # full cycles
    full = [(r[1], r[0]) for r in kept for _ in range(int(r[2]))]
    with observing(f"{what}: histogram"):
        slots = {}
        for i, line in enumerate(part(got, "hist")):
            for j, num in enumerate([line] if legacy else line):
                num = float(num)
                if num != int(num) or num < 0:
                    raise ValueError(f"{num} cycles in a bin")
                if num:
                    slots[("bin", 0, i) if legacy else ("bin", i, j)] = int(
                        num)
        large = [(0.0, float(c)) if legacy else tuple(map(float, c))
                 for c in part(got, "lg_c")]
        if any(len(c) != 2 for c in large):
            raise ValueError("large cycles are not (mean, range)")
    n_bins = sum(slots.values())
    for k in range(len(large)):
        slots[("large", k)] = 1
    check(
        n_bins + len(large) == len(full),
        f"{what}: {n_bins} cycles in bins and {len(large)} large cycles, "
        f"of {len(full)} full cycles; bins {rlb}+{rw}, {mlb}+{mw}: "
        f"{str(got['hist'])[:300]}",
    )
    if not full:
        return out | {"no full cycle"}
    top = max(r for _, r in full) ** expo
    allowed = []
    n_sig = 0
    for mean, ran in full:
        cands = {
            ("bin", i, j)
            for i in ({0} if legacy else bins_of(mean, mlb, mw))
            for j in bins_of(ran, rlb, rw)
        }
        sig = significant(ran, [rlb + (c[2] + 0.5) * rw for c in cands],
                          top, tol, expo)
        opts_i = {
            ("large", k)
            for k, (m, r) in enumerate(large)
            if abs(r - ran) <= eps + 1e-12 * abs(ran)
            and (legacy or abs(m - mean) <= eps + 1e-12 * abs(mean))
        }
        if not sig:
            opts_i |= cands
        n_sig += sig
        allowed.append(sorted(opts_i))
    where = match.assign(allowed, slots)
    for cyc, slot, opts_i in zip(full, where, allowed):
        if slot is None:
            fail(f"{what}: full cycle with mean {cyc[0]} and range {cyc[1]} "
                 f"is not exported at one of {opts_i[:4]} (bins from {mlb} "
                 f"by {mw} and from {rlb} by {rw}); got hist "
                 f"{str(got['hist'])[:300]}, lg_c {large[:10]}")
    rounded(large, dec, f"{what}: large cycles")
    if n_bins:
        out.add("in bins")
    if large:
        out.add("large")
    if n_sig:
        out.add("must be large")
    if len(large) > n_sig:
        out.add("large by gap or rounding")
    return out


def significant(ran, centers, top, tol, expo):
    """Whether the cycle has to be exported as it is, for sure."""
    dam = ran**expo
    if dam < 1e-200 or dam / top <= tol * (1 + 1e-9):
        return False
    return all(abs(dam - c**expo) / dam > tol * (1 + 1e-9) + 1e-9
               for c in centers)


def rounded(values, dec, what):
    """No more decimals than asked for."""
    with observing(what):
        values = np.asarray(values, float).ravel().tolist()
    for v in values:
        check(abs(v - round(v, dec)) <= 1e-12 * max(1.0, abs(v)),
              f"{what}: {v!r} has more than {dec} decimals")


def pairs_match(got, want, eps, legacy, what):
    with observing(what):
        got = [(0.0, float(c)) if legacy else tuple(map(float, c))
               for c in got]
        if any(len(c) != 2 for c in got):
            raise ValueError("not (mean, range)")
    check(len(got) == len(want),
          f"{what}: {len(got)} instead of {len(want)}")
    opts = [
        [k for k, (m, r) in enumerate(got)
         if abs(r - ran) <= eps + 1e-12 * abs(ran)
         and (legacy or abs(m - mean) <= eps + 1e-12 * abs(mean))]
        for mean, ran in want
    ]
    where = match.assign(opts, {k: 1 for k in range(len(got))})
    for cyc, slot in zip(want, where):
        check(slot is not None, f"{what}: mean {cyc[0]}, range {cyc[1]} is "
              f"missing in {got[:10]}")


@st.composite
def count_cases(draw):
    return {
        "cc": draw(counts.counts(depth=2)),
        "corr": draw(st.sampled_from([None] * 5 + ["dnv", "swt"])),
        "opts": draw(options()),
        "legacy": draw(st.integers(0, 3)) == 0,
    }


def first_bin(mlb, mw, means):
    """A derived bound is right below the smallest mean."""
    low = min(means)
    check(-1e-9 <= (low - mlb) / mw <= 1 + 1e-9,
          f"smallest mean {low} is not in the first bin from {mlb} by {mw}")


def bounds_of(cc):
    return (
        number(cc.range_bin_lower_bound, "bound"),
        number(cc.range_bin_width, "width"),
        number(cc.mean_bin_lower_bound, "bound"),
        number(cc.mean_bin_width, "width"),
    )


def check_count(cc, opts, legacy):
    got = cc.as_dict(legacy_export=legacy, **kwargs_of(opts))
    out = compare_export(
        got, counts.rows_of(cc), bounds_of(cc), opts, "export", legacy,
        number(cc.nr_small_cycles, "small cycles"))
    dec = 4 if opts["decimals"] is None else opts["decimals"]
    if cc.residuals_sequence is None:
        check(part(got, "res_sig") is None, "residual sequence out of nothing")
    else:
        same(part(got, "res_sig"), counts.seq_of(cc.residuals_sequence),
             "exported residual sequence", 1e-12, 0.5000001 * 10.0**-dec)
        rounded(part(got, "res_sig"), dec, "exported residual sequence")
    if legacy:
        out.add("without mean")
    return out


@subtest(P, "cycle-counts", count_cases, "a full cycle", quick=1100,
         weight=3)
def of_count(case):
    cc = correct(counts.make(case["cc"])[0], case["corr"])
    out = check_count(cc, case["opts"], case["legacy"])
    if "no full cycle" in out:
        return ()
    if case["corr"]:
        out.add("corrected")
        with observing("bins of a corrected count"):
            first_bin(number(cc.mean_bin_lower_bound, "mean bound"),
                      number(cc.mean_bin_width, "mean width"),
                      floats(cc.mean_stress, "means"))
    return out | counts.labels_of(case["cc"])


@st.composite
def wide_cases(draw):
    """Many full cycles around few bins: ties, edges, gaps."""
    width = draw(st.sampled_from([0.5, 1.0, 2.0, 0.3]))
    lb = draw(st.sampled_from([0.0, 0.5, 1.0, 0.2]))
    mw = draw(st.sampled_from([1.0, 2.0, 10]))
    return {
        "x": draw(gen.varying(st.one_of(
            gen.zigzag(6, 40, 0.5),
            st.lists(gen.floats(-10, 10), min_size=6, max_size=40),
            st.lists(st.integers(-6, 6).map(float), min_size=6,
                     max_size=60)))),
        "bounds": [lb, width, draw(st.sampled_from([-20.0, -15.5, None])),
                   mw],
        "opts": draw(options()),
        "legacy": draw(st.integers(0, 3)) == 0,
    }


@subtest(P, "signals with many cycles", wide_cases, "a full cycle",
         quick=700, weight=3)
def wide(case):
    lb, width, mlb, mw = case["bounds"]
    from py_fatigue import CycleCount

    cc = CycleCount.from_timeseries(
        np.array(case["x"]), timestamp=counts.stamp(0),
        range_bin_lower_bound=lb, range_bin_width=width,
        mean_bin_lower_bound=mlb, mean_bin_width=mw)
    if mlb is None:
        first_bin(number(cc.mean_bin_lower_bound, "mean bound"), mw,
                  floats(cc.mean_stress, "means"))
    out = check_count(cc, case["opts"], case["legacy"])
    return () if "no full cycle" in out else out


@st.composite
def large_cases(draw):
    """Clustered entries inside their bins, with many cycles."""
    rw = draw(st.sampled_from([0.5, 1.0, 2.0]))
    mw = draw(st.sampled_from([1.0, 2.0, 10]))
    rlb = draw(st.sampled_from([0.0, 0.5, 1.0]))
    mlb = draw(st.sampled_from([-20.0, -15.5]))
    inside = gen.grid(0.25, 0.75, 0.0625)
    entry = st.tuples(
        st.integers(0, 8), inside, st.integers(0, 5), inside,
        st.sampled_from([0.5, 1, 1, 2, 100, 127, 128, 200.5, 255, 256, 300,
                         32767, 40000, 65536, 70000.5]))
    return {
        "bounds": [rlb, rw, mlb, mw],
        "entries": [list(e) for e in draw(
            st.lists(entry, min_size=1, max_size=6))],
        "legacy": draw(st.integers(0, 3)) == 0,
    }


@subtest(P, "many cycles in a bin", large_cases, "a full cycle", quick=200,
         weight=6)
def large(case):
    from py_fatigue import CycleCount

    rlb, rw, mlb, mw = case["bounds"]
    want, res, rows = {}, [], []
    for i, u, j, v, num in case["entries"]:
        ran, mean = rlb + (i + u) * rw, mlb + (j + v) * mw
        rows.append((ran, mean, num))
        place = (0 if case["legacy"] else j, i)
        if int(num):
            want[place] = want.get(place, 0) + int(num)
        if num % 1:
            res.append((mean, ran))
    cc = CycleCount(
        timestamp=counts.stamp(0),
        stress_range=np.array([r[0] for r in rows]),
        mean_stress=np.array([r[1] for r in rows]),
        count_cycle=np.array([float(r[2]) for r in rows]),
        range_bin_lower_bound=rlb, range_bin_width=rw, mean_bin_width=mw)
    cc.mean_bin_lower_bound = mlb
    # nothing matters, and gaps are kept
    got = cc.as_dict(legacy_export=case["legacy"], max_consecutive_zeros=10**6,
                     damage_tolerance_for_binning=2.0)
    with observing("histogram"):
        lines = [part(got, "hist")] if case["legacy"] else part(got, "hist")
        have = {(i, j): float(n) for i, line in enumerate(lines)
                for j, n in enumerate(line) if n}
        for cyc in part(got, "lg_c"):
            mean, ran = (mlb, cyc) if case["legacy"] else cyc
            place = (int((mean - mlb) / mw), int((ran - rlb) / rw))
            have[place] = have.get(place, 0) + 1
    check(have == want, f"histogram {have} instead of {want}")
    pairs_match(part(got, "res"), res, 0.50001e-4, case["legacy"], "half cycles")
    if not want:
        return ()
    return {"over a byte" if max(want.values()) > 255 else "few",
            "over two bytes" if max(want.values()) > 65535 else "less"}


@st.composite
def direct_cases(draw):
    case = draw(wide_cases())
    case["time"] = draw(st.sampled_from([None, "array", "list"]))
    case["start"] = draw(gen.grid(-5, 1000, 0.25))
    case["step"] = draw(gen.grid(0.25, 4, 0.25))
    case["list"] = draw(st.booleans())
    case["upper"] = [
        draw(st.one_of(st.none(), gen.grid(0, 8, 0.25))) for _ in range(2)
    ]
    case["left out"] = draw(st.lists(st.integers(0, 2), unique=True))
    for i in case["left out"]:
        case["bounds"][(0, 1, 3)[i]] = (0.2, 0.05, 10.0)[i]
    return case


@subtest(P, "from a signal", direct_cases, "a full cycle", quick=500,
         weight=3)
def direct(case):
    x = case["x"]
    lb, width, mlb, mw = case["bounds"]
    time = None
    if case["time"]:
        time = [case["start"] + case["step"] * i for i in range(len(x))]
        if case["time"] == "array":
            time = np.array(time)
    kwargs = kwargs_of(case["opts"], "max_consetutive_zeros")
    if mlb is not None:
        kwargs["mean_bin_lower_bound"] = mlb
    names = ("range_bin_lower_bound", "range_bin_width", "mean_bin_width")
    for i, value in enumerate((lb, width, mw)):
        if i not in case["left out"]:
            kwargs[names[i]] = value
    rows = [(c[0], c[1], c[2]) for c in ref.cycles(x)]
    for key, col, beyond in zip(("range", "mean"), (0, 1), case["upper"]):
        if beyond is not None:
            kwargs[f"{key}_bin_upper_bound"] = beyond + max(
                r[col] for r in rows)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = binned_rainflow(
            list(x) if case["list"] else np.array(x), time, **kwargs)
    if mlb is None:
        mlb = number(part(got, "mean_bin_lower_bound"), "mean bound")
        first_bin(mlb, mw, [r[1] for r in rows])
    out = compare_export(got, rows, (lb, width, mlb, mw), case["opts"],
                         "export of a signal")
    same(floats(part(got, "res_sig"), "residual sequence"),
         ref.residual_sequence(x), "residual sequence", 1e-12, 1e-6)
    if time is not None:
        same_number(part(got, "as_dur"), case["step"] * (len(x) - 1), "duration")
        out.add("with time")
    else:
        check(got.get("as_dur") is None, "duration out of nothing")
    return () if "no full cycle" in out else out


@st.composite
def again_cases(draw):
    case = draw(count_cases())
    opts, steps = case["opts"], []
    for _ in range(draw(st.integers(1, 4))):
        key = draw(st.sampled_from(sorted(opts) + ["legacy", "range width",
                                                   "mean width"]))
        if key in opts:
            value = draw(options())[key]
        elif key == "legacy":
            value = draw(st.booleans())
        else:
            value = draw(st.sampled_from([0.5, 1.0, 2.0, 5.0]))
        steps.append([key, value])
    return dict(case, steps=steps)


@subtest(P, "same count again", again_cases, "a full cycle", quick=500,
         weight=8)
def again(case):
    """The export follows the options and the bins as they are now."""
    cc = correct(counts.make(case["cc"])[0], case["corr"])
    opts, legacy = dict(case["opts"]), case["legacy"]
    out = check_count(cc, opts, legacy)
    if "no full cycle" in out:
        return ()
    for key, value in case["steps"]:
        if key in opts:
            opts[key] = value
        elif key == "legacy":
            legacy = value
        elif key == "range width":
            cc.range_bin_width = value
        else:
            cc.mean_bin_width = value
        check_count(cc, opts, legacy)
    check_count(cc, opts, legacy)
    return {key for key, _ in case["steps"]}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "cycle-counts", {
    "options": turns.part("opts"),
    "correction": turns.part("corr"),
    "without mean": turns.changed("legacy", by=lambda v: not v),
    **turns.of_counts("cc"),
}, quick=450)
