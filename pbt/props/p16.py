"""P16: Paris curves."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from py_fatigue import ParisCurve

from pbt import curves, gen, turns
from pbt.core import call, check, close, fail, floats, rejects, same
from pbt.core import same_number
from pbt.core import subtest
from pbt.props.p12 import given, many, values_of, with_values

P = "P16"
FORMS = ["list", "array", "tuple", "scalar", "series", "ints",
         "numpy scalar", "int scalar"]
SCALES = (0, 0, 0, -5, 3)
RTOL = 1e-8  # limits are widened by 1e-10 before branches are looked up


def labels(spec, form):
    return {
        f"{len(spec['m'])} branches",
        "threshold" if spec["thr"] else "no threshold",
        "critical" if spec["crit"] else "no critical",
        form,
    }


@subtest(
    P,
    "growth rate",
    lambda: st.tuples(
        with_values(curves.paris(scales=SCALES), curves.sifs_for),
        st.sampled_from(FORMS),
    ),
    "every case",
    quick=1200,
)
def growth_rate(case):
    spec, form = case[0]["curve"], case[1]
    curve = curves.make_paris(spec)
    arg, vals = given(case[0]["v"], form)
    res = call("growth rate", curve.get_growth_rate, arg)
    got = values_of(res, form, len(vals), "growth rate")
    out = labels(spec, form)
    for k, r in zip(vals, got):
        want = curves.ref_rate(spec, k)
        if not close(r, want, RTOL):
            fail(f"growth rate at {k!r}: got {r!r}, expected {want!r}")
        if k == spec["thr"] and k:
            out.add("on threshold")
        elif k == spec["crit"]:
            out.add("on critical")
        elif want == 0:
            out.add("below threshold")
        elif want == math.inf:
            out.add("above critical")
        else:
            out.add(f"branch {curves.branch(spec, k) + 1}")
    return out


def rates_for(spec):
    points = [r for _, r in curves.knees_paris(spec)]
    for key in ("thr", "crit"):
        if spec[key]:
            points.append(curves.on_branch(spec, spec[key]))
    points.append(curves.on_branch(spec, 50.0))
    near = st.tuples(
        st.sampled_from(points),
        st.sampled_from([0.01, 0.3, 0.9, 0.99999, 1.0, 1.00001, 1.1, 3.0,
                         100.0]),
    ).map(lambda t: t[0] * t[1])
    return st.lists(
        st.one_of(near, near, gen.grid(-16, 2, 0.0625).map(lambda u: 10**u),
                  st.sampled_from([0.0, math.inf])),
        min_size=1,
        max_size=8,
    )


@subtest(
    P,
    "inverse",
    lambda: st.tuples(
        with_values(curves.paris(scales=SCALES), rates_for),
        st.sampled_from([f for f in FORMS if "int" not in f]),
    ),
    "every case",
    quick=1200,
)
def sif(case):
    spec, form = case[0]["curve"], case[1]
    curve = curves.make_paris(spec)
    arg, vals = given(case[0]["v"], form)
    res = call("SIF", curve.get_sif, arg)
    got = values_of(res, form, len(vals), "SIF")
    out = labels(spec, form)
    for r, k in zip(vals, got):
        want = curves.ref_sif(spec, r)
        if not close(k, want, RTOL):
            fail(f"SIF at growth rate {r!r}: got {k!r}, expected {want!r}")
        if spec["thr"] and want == spec["thr"]:
            out.add("threshold reached")
        elif want == spec["crit"]:
            out.add("critical reached")
    pairs = sorted(zip(vals, got))
    for (_, k0), (_, k1) in zip(pairs, pairs[1:]):
        check(k1 >= k0 * (1 - 1e-9), f"SIF decreases from {k0} to {k1}")
    return out


@subtest(
    P,
    "many values",
    lambda: st.fixed_dictionaries(
        {
            "s": with_values(curves.paris(scales=SCALES), curves.sifs_for),
            "copies": st.integers(20, 300),
            "form": st.sampled_from(["list", "array", "series"]),
        }
    ),
    "every case",
    quick=100,
    weight=10,
)
def many_values(case):
    spec = case["s"]["curve"]
    curve = curves.make_paris(spec)
    vals = many(case["s"]["v"], case["copies"])
    arg = given(vals, case["form"])[0]
    got = floats(call("growth rate", curve.get_growth_rate, arg), "rates")
    want = [curves.ref_rate(spec, k) for k in vals]
    same(got, want, f"growth rate of {len(vals)} SIF", RTOL)
    rates = [r for r in want if 0 < r < math.inf]
    if rates:
        arg = given(rates, case["form"])[0]
        same(call("SIF", curve.get_sif, arg),
             [curves.ref_sif(spec, r) for r in rates],
             f"SIF of {len(rates)} growth rates", RTOL)
    return labels(spec, case["form"])


@subtest(
    P,
    "there and back",
    lambda: with_values(curves.paris(scales=SCALES), curves.sifs_for),
    "some SIF between threshold and critical",
    quick=400,
)
def back(case):
    spec = case["curve"]
    curve = curves.make_paris(spec)
    crit = spec["crit"] or math.inf
    vals = [k for k in case["v"] if spec["thr"] <= k <= crit and k > 1e-3
            and k < math.inf]
    if not vals:
        return ()
    r = call("growth rate", curve.get_growth_rate, np.array(vals))
    same(call("SIF", curve.get_sif, np.asarray(r)), vals,
         "SIF of the growth rate of a SIF", RTOL)
    return labels(spec, "array")


@subtest(
    P,
    "knees and limits",
    lambda: curves.paris(scales=SCALES),
    "curve with knee, threshold or critical value",
    quick=600,
)
def features(spec):
    curve = curves.make_paris(spec)
    knees = curves.knees_paris(spec)
    check(
        bool(curve.linear) == (len(spec["m"]) == 1),
        f"linear is {curve.linear!r} with {len(spec['m'])} branches",
    )
    same(curve.slope, spec["m"], "slope", 0)
    same(curve.intercept, spec["c"], "intercept", 0)
    k = call("knee SIF", curve.get_knee_sif)
    r = call("knee growth rate", curve.get_knee_growth_rate)
    same(k, [x[0] for x in knees], "knee SIF", RTOL)
    same(r, [x[1] for x in knees], "knee growth rate", RTOL)
    if knees:
        on = call("growth rate", curve.get_growth_rate, np.asarray(k, float))
        same(on, [x[1] for x in knees], "growth rate at knees", RTOL)
        on = call("SIF", curve.get_sif, np.asarray(r, float))
        same(on, [x[0] for x in knees], "SIF at knees", RTOL)
    same_number(curve.threshold, spec["thr"], "threshold", 0)
    same_number(curve.critical, spec["crit"] or math.inf, "critical", 0)
    same_number(
        call("rate", lambda: curve.threshold_growth_rate),
        curves.on_branch(spec, spec["thr"]),
        "growth rate at the threshold",
        RTOL,
    )
    if spec["crit"]:
        same_number(
            call("rate", lambda: curve.critical_growth_rate),
            curves.on_branch(spec, spec["crit"]),
            "growth rate at the critical SIF",
            RTOL,
        )
    else:
        check(call("rate", lambda: curve.critical_growth_rate) == math.inf,
              "growth rate at the critical SIF of a curve without one")
    if not (knees or spec["thr"] or spec["crit"]):
        return ()
    return labels(spec, spec["form"])


@subtest(
    P,
    "knees to check against",
    lambda: st.fixed_dictionaries(
        {
            "curve": st.one_of(curves.paris(scales=SCALES),
                               curves.paris((2, 2), scales=SCALES)),
            "off": st.sampled_from([0.0, 1e-9, -1e-9, 1e-3, -1e-3]),
            "what": st.sampled_from(
                ["right", "right", "one wrong", "too many", "too few",
                 "digits"]
            ),
            "which": st.integers(0, 3),
            "scalar": st.booleans(),
            "of": st.sampled_from(["sif", "rate"]),
            "digits": st.integers(1, 8),
        }
    ),
    "every case",
    quick=500,
)
def knee_check(case):
    spec, what = case["curve"], case["what"]
    curve = curves.make_paris(spec)
    knees = curves.knees_paris(spec)
    fn = (curve.get_knee_sif if case["of"] == "sif"
          else curve.get_knee_growth_rate)
    if not knees:
        rejects("knee of a straight curve", ValueError, fn,
                check_knee=[50.0] if not case["scalar"] else 50.0)
        return {"straight"}
    given_knees = [k * (1 + case["off"]) for k, _ in knees]
    which = case["which"] % len(knees)
    if what == "right":
        if case["scalar"] and len(knees) == 1:
            given_knees = given_knees[0]
        got = call("knees", fn, check_knee=given_knees)
        col = 0 if case["of"] == "sif" else 1
        same(got, [x[col] for x in knees], "knees", RTOL)
        return {what, case["of"], f"{len(knees)} knees"}
    if what == "one wrong":
        given_knees[which] *= 3
        rejects("wrong knee", AssertionError, fn, check_knee=given_knees)
        return {what, case["of"], f"{len(knees)} knees"}
    if what == "digits":
        near = [k * (1 + 1e-10) for k, _ in knees]
        # the scaled difference is compared with 10**(1 - digits)
        digits = case["digits"]
        value = knees[which][0 if case["of"] == "sif" else 1]
        lead = value / 10 ** math.floor(math.log10(value))
        expo = 1.0
        if case["of"] == "rate":
            expo = spec["m"][curves.branch(spec, knees[which][0])]
        call("knees", fn, check_knee=near, significant_digits=digits)
        if digits < 3 and (which < len(knees) - 1 or spec["crit"]):
            # a large step could go beyond the branch
            digits += 2
        for part, good in ((0.5, True), (3.0, False)):
            if not 1.05 < lead < (7 if digits < 3 else 9.5):
                continue
            off = part * 10.0 ** (1 - digits) / lead / expo
            near[which] = knees[which][0] * (1 + off)
            if good:
                call("knees", fn, check_knee=near, significant_digits=digits)
            else:
                rejects(f"knee off by {off}", AssertionError, fn,
                        check_knee=near, significant_digits=digits)
        return {what, case["of"],
                "few digits" if digits < 3 else "many digits"}
    if what == "too many":
        given_knees = given_knees + [given_knees[-1]]
    else:
        given_knees = given_knees[:-1]
    rejects("number of knees", ValueError, fn, check_knee=given_knees)
    return {what, case["of"]}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "curve": curves.paris(branches=(1, 5)),
            "what": st.sampled_from(
                ["slopes", "intercepts", "order", "threshold", "critical",
                 "limits", "negative", "negative"]
            ),
            "values": st.lists(gen.grid(1, 200, 1), max_size=5),
            "bad": st.sampled_from([-1e-9, -1.0, -50.0]),
            "array": st.booleans(),
            "frac": st.sampled_from([0.999, 0.9, 0.5]),
            "sif": st.booleans(),
            "at": st.sampled_from([1.0, 50.0, 500.0]),
            "knees": st.permutations([30.0, 50.0, 80.0, 200.0]),
        }
    ),
    "every case but knees of a straight curve",
    quick=400,
)
def rejection(case):
    spec, what = case["curve"], case["what"]
    wrap = np.array if case["array"] else list
    m, c = spec["m"], spec["c"]
    kwargs = {"threshold": spec["thr"]}
    if spec["crit"]:
        kwargs["critical"] = spec["crit"]

    def use(m, c, **kwargs):
        curve = ParisCurve(wrap(m), wrap(c), **kwargs)
        if case["sif"]:
            return curve.get_sif([curves.on_branch(spec, case["at"])])
        return curve.get_growth_rate([case["at"]])

    if what == "slopes":
        rejects("one slope too many", ValueError, use, m + [m[-1] + 1], c,
                **kwargs)
        return {what}
    if what == "intercepts":
        rejects("one intercept too many", ValueError, use, m,
                c + [c[-1] / 10], **kwargs)
        return {what}
    refused = (AssertionError, ValueError)
    if what == "negative":
        curve = curves.make_paris(spec)
        values = list(case["values"])
        values.insert(int(case["at"]) % 6, case["bad"])
        fn = curve.get_sif if case["sif"] else curve.get_growth_rate
        rejects(f"negative value in {values}", refused, fn,
                values[0] if len(values) == 1 and case["array"]
                else wrap(values))
        return {what}
    if what == "limits":
        thr = spec["thr"] or 20.0
        rejects("threshold above critical value", refused, use, m, c,
                threshold=thr, critical=thr * case["frac"])
        rejects("threshold at the critical value", refused, use, m[:1], c[:1],
                threshold=thr, critical=thr)
        return {what}
    knees = [k for k, _ in curves.knees_paris(spec)]
    if not knees:
        return ()
    if what == "order":
        if len(knees) < 2:
            return ()
        # knees in the wrong order: branches of a curve listed backwards
        # meet at the same points, in decreasing order
        rejects("knees in decreasing order", refused, use, m[::-1], c[::-1])
        wrong = case["knees"][: len(m) - 1]
        if wrong != sorted(wrong):
            c = c[:1]
            for j, k in enumerate(wrong):
                c.append(c[-1] * k ** (m[j] - m[j + 1]))
            rejects(f"knees at {wrong}", refused, use, m, c)
        return {what, f"{len(knees)} knees"}
    if what == "threshold":
        rejects("knee below the threshold", refused, use, m, c,
                threshold=knees[0] / case["frac"],
                critical=10 * knees[-1] / case["frac"])
        return {what, f"{len(knees)} knees"}
    rejects("knee above the critical value", refused, use, m, c,
            threshold=0, critical=knees[-1] * case["frac"])
    return {what, f"{len(knees)} knees"}


@subtest(
    P,
    "same array again",
    lambda: st.tuples(
        with_values(curves.paris(scales=SCALES), curves.sifs_for),
        st.lists(st.sampled_from([0.5, 0.9, 1.0, 1.25, 3.0]), min_size=1,
                 max_size=4),
        st.sampled_from(["array", "list"]),
    ),
    "every case",
    quick=300,
)
def again(case):
    spec, factors, form = case[0]["curve"], case[1], case[2]
    curve = curves.make_paris(spec)
    arg = given(list(case[0]["v"]), form)[0]
    for factor in [1.0] + factors:
        arg[:] = [v * factor for v in case[0]["v"]]
        vals = [float(v) for v in arg]
        first = call("growth rate", curve.get_growth_rate, arg)
        seen = floats(first, "growth rate").tolist()
        for k, r in zip(vals, seen):
            want = curves.ref_rate(spec, k)
            check(close(r, want, RTOL),
                  f"growth rate at {k!r}: got {r!r}, expected {want!r}")
        # what the user does with a result has no effect on the next one
        if isinstance(first, np.ndarray) and first.flags.writeable:
            first[:] = -1.0
        same(call("growth rate", curve.get_growth_rate, arg), seen,
             "growth rate asked again", 0)
    return {form, f"{1 + len(factors)} times"}


# ----------------------------------------------------------- one after another
for _name in ("growth rate", "inverse"):
    turns.in_turn(P, _name, {
        "values": turns.part(0, "v"),
        "form": turns.part(1),
        **turns.of_curve(turns.PARIS, 0, "curve"),
    }, quick=750)
