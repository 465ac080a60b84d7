"""P12: SN curves."""

from __future__ import annotations

import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue import SNCurve

from pbt import curves, gen, turns
from pbt.core import call, check, close, fail, floats, number, rejects
from pbt.core import same, same_number, subtest

P = "P12"
FORMS = ["list", "array", "tuple", "scalar", "series", "reversed", "ints",
         "numpy scalar", "int scalar"]


def any_sn():
    """Curves also for stresses in other units."""
    return curves.sn(scales=(0, 0, 0, 0, -3, 3, 6))


def given(values, form):
    """The values in the form a user gives them, and as floats."""
    if form == "list":
        return values, values
    if form == "tuple":
        return tuple(values), values
    if form == "array":
        return np.array(values), values
    if form == "series":
        return pd.Series(values), values
    if form == "reversed":
        return np.array(values[::-1])[::-1], values
    if form == "ints":
        ints = [max(1, int(min(v, 1e12))) for v in values]
        return ints, [float(v) for v in ints]
    if form == "int scalar":
        num = max(1, int(min(values[0], 1e12)))
        return num, [float(num)]
    if form == "numpy scalar":
        return np.float64(values[0]), values[:1]
    return values[0], values[:1]


def values_of(res, form, n, what):
    """The result as list; a number for a number."""
    if "scalar" in form:
        check(np.ndim(res) == 0, f"{what}: array for a number")
        return [number(res, what)]
    arr = floats(res, what)
    check(arr.size == n, f"{what}: {arr.size} values instead of {n}")
    return arr.tolist()


def or_zero(spec):
    """Stress ranges, now and then one of zero or infinite."""
    return st.tuples(
        curves.stresses_for(spec), st.integers(0, 40),
        st.sampled_from([0.0, 0.0, math.inf]),
    ).map(lambda t: [t[2] if i == t[1] else v for i, v in enumerate(t[0])])


def with_values(strategy, build):
    """A curve with values that depend on it."""
    return strategy.flatmap(
        lambda spec: build(spec).map(lambda v: {"curve": spec, "v": v})
    )


def labels(spec, form):
    return {
        f"{len(spec['m'])} branches",
        "endurance" if spec["end"] else "no endurance",
        form,
    }


@subtest(
    P,
    "cycles",
    lambda: st.tuples(
        with_values(any_sn(), or_zero), st.sampled_from(FORMS)
    ),
    "every case",
    quick=1200,
)
def cycles(case):
    spec, form = case[0]["curve"], case[1]
    curve = curves.make_sn(spec)
    arg, vals = given(case[0]["v"], form)
    res = call("cycles", curve.get_cycles, arg)
    got = values_of(res, form, len(vals), "cycles")
    out = labels(spec, form)
    for s, n in zip(vals, got):
        want = curves.ref_cycles(spec, s)
        if curves.at_endurance(spec, s):
            log_n = curves.log_cycles(spec, s)
            if n == math.inf or close(n, 10**log_n, 1e-8):
                out.add("at endurance")
                continue
        if not close(n, want, 1e-8):
            fail(f"cycles of {s!r}: got {n!r}, expected {want!r}")
        out.add("infinite" if want == math.inf else "finite")
        if 0 < want < math.inf:
            lead = max(
                range(len(spec["m"])),
                key=lambda j: spec["a"][j] - spec["m"][j] * math.log10(s),
            )
            out.add(f"branch {lead + 1} governs")
        if s in (0, math.inf):
            out.add("no stress" if s == 0 else "infinite stress")
    # decreasing with the stress
    pairs = sorted(zip(vals, got))
    for (s0, n0), (s1, n1) in zip(pairs, pairs[1:]):
        check(
            n1 <= n0 * (1 + 1e-9),
            f"cycles increase from {n0} at {s0} to {n1} at {s1}",
        )
    return out


def cycles_for(spec):
    points = [n for _, n in curves.knees_sn(spec)] + [1e6]
    if spec["end"]:
        points.append(spec["end"])
    near = st.tuples(
        st.sampled_from(points),
        st.sampled_from([0.01, 0.5, 0.999999, 1.0, 1.000001, 1.5, 10.0,
                         1000.0]),
    ).map(lambda t: t[0] * t[1])
    return st.lists(
        st.one_of(near, near, gen.grid(1, 13, 0.0625).map(lambda u: 10**u)),
        min_size=1,
        max_size=8,
    )


@subtest(
    P,
    "stress",
    lambda: st.tuples(
        with_values(any_sn(), cycles_for), st.sampled_from(FORMS)
    ),
    "every case",
    quick=1200,
)
def stress(case):
    spec, form = case[0]["curve"], case[1]
    curve = curves.make_sn(spec)
    arg, vals = given(case[0]["v"], form)
    res = call("stress", curve.get_stress, arg)
    got = values_of(res, form, len(vals), "stress")
    out = labels(spec, form)
    for n, s in zip(vals, got):
        want = curves.ref_stress(spec, n)
        if not close(s, want, 1e-9):
            fail(f"stress of {n!r} cycles: got {s!r}, expected {want!r}")
        if spec["end"]:
            out.add("beyond endurance" if n > spec["end"] else "before")
    pairs = sorted(zip(vals, got))
    for (n0, s0), (n1, s1) in zip(pairs, pairs[1:]):
        check(
            s1 <= s0 * (1 + 1e-9),
            f"stress increases from {s0} at {n0} to {s1} at {n1}",
        )
    return out


def many(values, copies):
    """Long and not sorted, out of a few values."""
    return [v * (1 + 0.003 * k) for k in range(copies) for v in values]


@subtest(
    P,
    "many values",
    lambda: st.fixed_dictionaries(
        {
            "s": with_values(any_sn(), curves.stresses_for),
            "copies": st.integers(20, 300),
            "form": st.sampled_from(["list", "array", "series"]),
        }
    ),
    "every case",
    quick=100,
    weight=10,
)
def many_values(case):
    spec = case["s"]["curve"]
    curve = curves.make_sn(spec)
    vals = many(case["s"]["v"], case["copies"])
    arg = given(vals, case["form"])[0]
    n = floats(call("cycles", curve.get_cycles, arg), "cycles")
    check(n.size == len(vals), f"{n.size} values instead of {len(vals)}")
    for s, got in zip(vals, n.tolist()):
        want = curves.ref_cycles(spec, s)
        if not (close(got, want, 1e-8) or curves.at_endurance(spec, s)):
            fail(f"cycles of {s!r} among {len(vals)}: got {got!r}, "
                 f"expected {want!r}")
    vals = [v * 1e4 for v in vals]
    arg = given(vals, case["form"])[0]
    s = floats(call("stress", curve.get_stress, arg), "stress")
    same(s, [curves.ref_stress(spec, v) for v in vals],
         f"stress of {len(vals)} numbers", 1e-9)
    return labels(spec, case["form"])


@subtest(
    P,
    "inverse",
    lambda: with_values(any_sn(), curves.stresses_for),
    "some stress above the endurance stress",
    quick=500,
)
def inverse(case):
    spec = case["curve"]
    curve = curves.make_sn(spec)
    limit = curves.ref_stress(spec, math.inf)
    vals = [s for s in case["v"] if s > limit * (1 + 1e-6)]
    if not vals:
        return ()
    n = call("cycles", curve.get_cycles, np.array(vals))
    back = call("stress", curve.get_stress, np.asarray(n))
    same(back, vals, "stress of the cycles of a stress", 1e-9)
    below = [s for s in case["v"] if s < limit * (1 - 1e-6)]
    if below:
        got = call("cycles", curve.get_cycles, np.array(below))
        check(np.all(np.isinf(got)), "finite life below the endurance")
    return labels(spec, "array")


@subtest(
    P,
    "knees and endurance",
    lambda: any_sn(),
    "curve with knee or endurance",
    quick=700,
)
def features(spec):
    curve = curves.make_sn(spec)
    knees = curves.knees_sn(spec)
    check(
        bool(curve.linear) == (len(spec["m"]) == 1),
        f"linear is {curve.linear!r} with {len(spec['m'])} branches",
    )
    same(curve.slope, spec["m"], "slope", 0)
    same(curve.intercept, spec["a"], "intercept", 0)
    s = call("knee stress", curve.get_knee_stress)
    n = call("knee cycles", curve.get_knee_cycles)
    same(s, [k[0] for k in knees], "knee stress", 1e-9)
    same(n, [k[1] for k in knees], "knee cycles", 1e-8)
    if knees:
        on = call("cycles", curve.get_cycles, np.asarray(s, float))
        same(on, [k[1] for k in knees], "cycles at the knees", 1e-8)
        on = call("stress", curve.get_stress, np.asarray(n, float))
        same(on, [k[0] for k in knees], "stress at the knees", 1e-8)
    want = spec["end"] if spec["end"] else math.inf
    same_number(curve.endurance, want, "endurance", 0)
    same_number(
        call("endurance stress", lambda: curve.endurance_stress),
        curves.ref_stress(spec, math.inf),
        "endurance stress",
    )
    if not knees and not spec["end"]:
        return ()
    return labels(spec, spec["form"])


@subtest(
    P,
    "knees to check against",
    lambda: st.fixed_dictionaries(
        {
            "curve": st.one_of(curves.sn(), curves.sn(branches=(2, 2))),
            "off": st.sampled_from([0.0, 1e-8, -1e-8, 1e-3, -1e-3]),
            "what": st.sampled_from(
                ["right", "right", "one wrong", "too many", "too few",
                 "digits"]
            ),
            "which": st.integers(0, 3),
            "scalar": st.booleans(),
            "of": st.sampled_from(["stress", "cycles"]),
            "up": st.booleans(),
            "digits": st.integers(4, 8),
        }
    ),
    "every case",
    quick=500,
)
def knee_check(case):
    spec, what = case["curve"], case["what"]
    curve = curves.make_sn(spec)
    knees = curves.knees_sn(spec)
    fn = curve.get_knee_stress if case["of"] == "stress" else (
        curve.get_knee_cycles)
    if not knees:
        rejects("knee of a straight curve", ValueError, fn,
                check_knee=[1e6] if not case["scalar"] else 1e6)
        return {"straight"}
    given_knees = [n * (1 + case["off"]) for _, n in knees]
    which = case["which"] % len(knees)
    if what == "right":
        if case["scalar"] and len(knees) == 1:
            given_knees = given_knees[0]
        got = call("knees", fn, check_knee=given_knees)
        col = 0 if case["of"] == "stress" else 1
        same(got, [k[col] for k in knees], "knees", 1e-8)
        return {what, case["of"], f"{len(knees)} knees"}
    if what == "one wrong":
        if case["of"] == "stress":
            # ten times the stress on that branch
            given_knees[which] /= 10 ** spec["m"][which + 1]
        else:
            given_knees[which] *= 3 if case["up"] else 1 / 3
        rejects("wrong knee", AssertionError, fn, check_knee=given_knees)
        return {what, case["of"], f"{len(knees)} knees"}
    if what == "digits":
        near = [n * (1 + 1e-10) for _, n in knees]
        call("knees", fn, check_knee=near,
             significant_digits=case["digits"])
        off = case["digits"] - 1
        near[which] = knees[which][1] * (1 + 20 * spec["m"][-1] / 10**off)
        rejects("knee off by too much", AssertionError, fn, check_knee=near,
                significant_digits=case["digits"])
        return {what, case["of"]}
    if what == "too many":
        given_knees = given_knees + [given_knees[-1]]
    else:
        given_knees = given_knees[:-1]
    rejects("number of knees", ValueError, fn, check_knee=given_knees)
    return {what, case["of"]}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "curve": curves.sn(branches=(1, 4)),
            "what": st.sampled_from(
                ["slopes", "intercepts", "endurance", "endurance first",
                 "negative stress", "no cycles"]
            ),
            "values": st.lists(gen.grid(1, 200, 1), max_size=5),
            "at": st.integers(0, 5),
            "bad": st.sampled_from([0.0, -1e-9, -1.0, -50.0]),
            "array": st.booleans(),
            "frac": st.sampled_from([0.999, 0.9, 0.5, 0.1, 1e-4]),
        }
    ),
    "every case but endurance of a straight curve",
    quick=300,
)
def rejection(case):
    spec, what = case["curve"], case["what"]
    wrap = np.array if case["array"] else list
    m, a = spec["m"], spec["a"]
    if what == "slopes":
        rejects("one slope too many", ValueError,
                lambda: SNCurve(wrap(m + [m[-1] + 1]), wrap(a)))
        return {what}
    if what == "intercepts":
        rejects("one intercept too many", ValueError,
                lambda: SNCurve(wrap(m), wrap(a + [a[-1] + 1])))
        return {what}
    if what in ("negative stress", "no cycles"):
        curve = curves.make_sn(spec)
        values, bad = list(case["values"]), case["bad"]
        if what == "negative stress":
            bad = bad or -2.0  # zero is a stress
            fn = curve.get_cycles
        else:
            fn = curve.get_stress
        values.insert(case["at"], bad)
        rejects(f"{what} {values}", (AssertionError, ValueError), fn,
                bad if len(values) == 1 and case["array"] else wrap(values))
        return {what}
    knees = [n for _, n in curves.knees_sn(spec)]
    if not knees:
        return ()
    if what == "endurance":
        end = knees[-1] * case["frac"]
    else:
        end = knees[0] * case["frac"]
    rejects("endurance below a knee", ValueError,
            lambda: SNCurve(wrap(m), wrap(a), endurance=end))
    return {what, f"{len(knees)} knees"}


@subtest(
    P,
    "older names",
    lambda: with_values(any_sn(), curves.stresses_for),
    "every case",
    quick=150,
)
def older(case):
    curve = curves.make_sn(case["curve"])
    vals = np.array(case["v"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n = call("n", curve.n, vals)
        s = call("sigma", curve.sigma, vals * 1e4)
    same(n, call("cycles", curve.get_cycles, vals), "older name for cycles")
    same(s, call("stress", curve.get_stress, vals * 1e4),
         "older name for stress")
    return labels(case["curve"], "array")


@subtest(
    P,
    "same array again",
    lambda: st.tuples(
        with_values(curves.sn(), curves.stresses_for),
        st.lists(st.sampled_from([0.5, 0.9, 1.0, 1.25, 3.0]), min_size=1,
                 max_size=4),
        st.sampled_from(["array", "list"]),
    ),
    "every case",
    quick=300,
)
def again(case):
    spec, factors, form = case[0]["curve"], case[1], case[2]
    curve = curves.make_sn(spec)
    arg = given(list(case[0]["v"]), form)[0]
    for factor in [1.0] + factors:
        arg[:] = [v * factor for v in case[0]["v"]]
        vals = [float(v) for v in arg]
        first = call("cycles", curve.get_cycles, arg)
        seen = floats(first, "cycles").tolist()
        lives = [curves.ref_cycles(spec, s) for s in vals]
        for s, n, want in zip(vals, seen, lives):
            check(close(n, want, 1e-8) or curves.at_endurance(spec, s),
                  f"cycles of {s!r}: got {n!r}, expected {want!r}")
        back = [min(n, 1e15) for n in lives]
        arr = np.array(back)
        got = floats(call("stress", curve.get_stress, arr), "stress")
        for n, s in zip(back, got.tolist()):
            want = curves.ref_stress(spec, n)
            check(close(s, want, 1e-9),
                  f"stress of {n!r} cycles: got {s!r}, expected {want!r}")
        # what the user does with a result has no effect on the next one
        if isinstance(first, np.ndarray) and first.flags.writeable:
            first[:] = -1.0
        same(call("cycles", curve.get_cycles, arg), seen,
             "cycles asked again", 0)
    return {form, f"{1 + len(factors)} times",
            "endurance" if spec["end"] else "no endurance"}


# ----------------------------------------------------------- one after another
for _name in ("cycles", "stress"):
    turns.in_turn(P, _name, {
        "values": turns.part(0, "v"),
        "form": turns.part(1),
        **turns.of_curve(turns.SN, 0, "curve"),
    }, quick=750)
