"""P27: doubtful operations warn, others do not."""

from __future__ import annotations

import re
import warnings

import numpy as np
from hypothesis import strategies as st

from py_fatigue.cycle_count.rainflow import findcross
from py_fatigue.damage.stress_life import (
    calc_nonlinear_damage,
    get_nonlinear_damage,
)

from pbt import counts, curves, gen
from pbt.core import call, check, exactly, floats, observing, subtest
from pbt.ref import rainflow as ref
from pbt.props.p05 import last_minute
from pbt.props.p15 import RULES, kwargs_of
from pbt.props.p15 import cases as damage_cases

P = "P27"
COLOR = re.compile(r"\x1b\[[0-9;]*m")


def warned(what, fn, *args, **kwargs):
    """The result and the warnings issued, as (category, text)."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            res = call(what, fn, *args, **kwargs)
    return res, [(w.category, COLOR.sub("", str(w.message))) for w in seen]


def judge(seen, word, expected, what, category=UserWarning, also=()):
    """A warning that mentions ``word`` is issued when expected."""
    hits = [t for c, t in seen
            if issubclass(c, category) and word in t.lower()]
    if expected:
        check(hits, f"{what}: no warning; got {seen}")
        for part in also:
            check(any(part in t for t in hits),
                  f"{what}: the warning does not say {part!r}: {hits}")
    else:
        check(not hits, f"{what}: warned without reason: {hits}")
    return {what} if expected else set()


def state(cc):
    """What a warned operation that does nothing leaves."""
    with observing("count"):
        return (sorted(counts.rows_of(cc)), counts.seq_of(
            cc.residuals_sequence), bool(cc.lffd_solved),
            cc.mean_stress_corrected, counts.times_of(cc))


def day(cc):
    return cc.timestamp.strftime("%d %B %Y, %H:%M")


# ------------------------------------------------------------------ adding
WIDTHS = [0.25, 0.5, 1.0]


@st.composite
def operand(draw, minute):
    """A count with few names and bin widths; scaled and resolved at
    times."""
    name = draw(st.sampled_from([None, "A", "A", "B"]))
    spec = draw(counts.any_leaf(minute, name=name))
    bins = spec["data"] if spec["op"] == "rf" else spec.get("bins")
    if bins is not None:
        bins["range_bin_width"] = draw(st.sampled_from(WIDTHS))
        bins["mean_bin_width"] = draw(st.sampled_from([1.0, 2.0, 10.0]))
    if draw(st.booleans()):
        spec = {"op": "mul", "arg": spec, "left": False,
                "f": draw(st.sampled_from([1.0, 1.5, 2.0]))}
    if draw(st.integers(0, 3)) == 0:
        spec = {"op": "solve", "arg": spec, "mode": "residuals"}
    return spec


@st.composite
def pairs(draw):
    a = draw(operand(0))
    same = draw(st.integers(0, 3)) == 0
    if same:
        b = dict(a)
    else:
        b = draw(operand(last_minute(a) + draw(st.sampled_from([0, 1, 90]))))
    return {"a": a, "b": b, "radd": draw(st.booleans()),
            "other": draw(st.sampled_from(["count"] * 6 + [
                "none", "zero", "nan", "0.0"]))}


@subtest(P, "adding", pairs, "a sum that warns", quick=1200, weight=3)
def adding(case):
    a, _ = counts.make(case["a"])
    kind = case["other"]
    if kind != "count":
        thing = {"none": None, "zero": 0, "nan": float("nan"),
                 "0.0": 0.0}[kind]
        was = state(a)
        if case["radd"]:
            res, seen = warned("sum", lambda: thing + a)
        else:
            res, seen = warned("sum", lambda: a + thing)
        check(state(res) == was, f"sum with {thing}: another count")
        # nothing plus a count is how ``sum`` starts
        return judge(seen, "non cyclecount", not case["radd"],
                     "adding no count", also=[day(a)]) or {"starting a sum"}
    b, _ = counts.make(case["b"])
    has = [c.residuals_sequence is not None for c in (a, b)]
    late = [day(c) for c, h in zip((a, b), has) if not h]
    res, seen = warned("sum", lambda: a + b)
    out = judge(seen, "parameters", a.name != b.name, "different names",
                also=[str(a.name), str(b.name)])
    out |= judge(seen, "range widths",
                 a.range_bin_width != b.range_bin_width,
                 "different range widths",
                 also=[str(a.range_bin_width), str(b.range_bin_width)])
    out |= judge(seen, "mean widths",
                 a.mean_bin_width != b.mean_bin_width,
                 "different mean widths",
                 also=[str(a.mean_bin_width), str(b.mean_bin_width)])
    out |= judge(seen, "different scf",
                 a.stress_concentration_factor
                 != b.stress_concentration_factor, "different SCFs")
    out |= judge(seen, "residuals_sequence", not all(has),
                 "no residual sequence",
                 also=late if len(late) == 1 else ())
    judge(seen, "non cyclecount", False, "not a count")
    return out


# --------------------------------------------------------------- resolving
@st.composite
def to_resolve(draw):
    spec = draw(counts.counts(depth=draw(st.integers(0, 2))))
    if draw(st.integers(0, 3)) == 0:
        spec = {"op": "solve", "arg": spec, "mode": "residuals"}
    return {"cc": spec,
            "mode": draw(st.sampled_from(["residuals", "min-max", "min/max",
                                          "MIN MAX", "Residuals"]))}


@subtest(P, "resolving", to_resolve, "every case", quick=1000, weight=2)
def resolving(case):
    cc, _ = counts.make(case["cc"])
    was = state(cc)
    seq = (cc.residuals_sequence if case["mode"].lower() == "residuals"
           else cc.min_max_sequence)
    missing = cc.residuals_sequence is None
    short = not missing and len(seq) < 3
    done = bool(cc.lffd_solved)
    res, seen = warned("resolving", cc.solve_lffd, case["mode"])
    out = judge(seen, "already resolved", done, "already resolved")
    out |= judge(seen, "not available", missing, "no residual sequence")
    out |= judge(seen, "not possible", short, "short residual sequence")
    if out:
        check(state(res) == was, "a count that cannot be resolved changed")
    return out or {"resolved"}


# ----------------------------------------------------------------- scaling
@subtest(
    P,
    "scaling",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=2),
            "factors": st.lists(
                st.sampled_from([1, 1.0, 0.5, 2, 1.5]), min_size=1,
                max_size=4),
            "left": st.booleans(),
        }
    ),
    "every case",
    quick=500,
    weight=2,
)
def scaling(case):
    cc, _ = counts.make(case["cc"])
    out = set()
    for f in case["factors"]:
        scf = cc.stress_concentration_factor
        cc, seen = warned(
            "product", lambda: f * cc if case["left"] else cc * f)
        out |= judge(seen, "scf already", scf != 1, "scaled again",
                     also=[str(scf)])
    return out or {"first factor"}


# -------------------------------------------------------------- correcting
@st.composite
def to_correct(draw):
    return {
        "cc": draw(counts.counts(depth=draw(st.integers(0, 2)))),
        "types": draw(st.lists(
            st.sampled_from(["DNVGL-RP-C203", "walker", "SWT",
                             "Smith-Watson-Topper", "WALKER", "swt",
                             "dnvgl-rp-c203"]),
            min_size=1, max_size=3)),
        "p": draw(st.sampled_from([None, 0.8, 0.6])),
        "gamma": draw(st.sampled_from([None, 0.5, 0.25, 1])),
        "pulsating": True,
    }


@subtest(P, "correcting", to_correct, "every case", quick=800, weight=3)
def correcting(case):
    cc, _ = counts.make(case["cc"])
    out = set()
    for typ in case["types"]:
        done = cc.mean_stress_corrected
        already = done != "No"
        kwargs = {"correction_type": typ, "enforce_pulsating_load": True}
        kind = typ.lower()
        dnv, walker = kind.startswith("dnv"), kind == "walker"
        if dnv and case["p"] is not None:
            kwargs["detail_factor"] = case["p"]
        if walker and case["gamma"] is not None:
            kwargs["gamma"] = case["gamma"]
        was = state(cc)
        res, seen = warned("correction", cc.mean_stress_correction, **kwargs)
        out |= judge(seen, "already been corrected", already,
                     "already corrected", also=[str(done)])
        judge(seen, "no detail factor",
              not already and dnv and case["p"] is None, "no detail factor")
        judge(seen, "no gamma",
              not already and walker and case["gamma"] is None, "no gamma")
        out |= judge(seen, "long-term",
                     not already and len(counts.times_of(cc)) == 1,
                     "single count")
        if already:
            check(state(res) == was, "a corrected count changed")
        cc = res
    return out or {"corrected"}


# ---------------------------------------------------------------- presets
@subtest(
    P,
    "preset parameters of damage rules",
    lambda: st.tuples(damage_cases(), counts.counts(depth=1)),
    "every case",
    quick=800,
)
def presets(case):
    spec, cspec = case
    kind = RULES[spec["rule"]]
    kwargs = kwargs_of(spec)
    curve = curves.make_sn(spec["curve"])
    cc, _ = counts.make(cspec)
    out = set()
    for what, fn, args in (
        ("of arrays", calc_nonlinear_damage,
         (np.array(spec["stress"]), np.array(spec["count"]))),
        ("of a count", get_nonlinear_damage, (cc,)),
    ):
        _, seen = warned(f"damage {what}", fn, spec["rule"], *args, curve,
                         **kwargs)
        out |= judge(seen, "base_exponent",
                     kind in ("pavlou", "manson", "leve")
                     and "base_exponent" not in kwargs,
                     "no base exponent")
        out |= judge(seen, "ultimate_stress",
                     kind == "pavlou" and "ultimate_stress" not in kwargs,
                     "no ultimate stress")
    return out or {"all given"}


# --------------------------------------------------------- older functions
@subtest(
    P,
    "older names of the SN curve",
    lambda: curves.sn().flatmap(
        lambda spec: st.fixed_dictionaries(
            {
                "curve": st.just(spec),
                "stress": curves.stresses_for(spec),
                "cycles": st.lists(
                    gen.grid(1, 12, 0.125).map(lambda e: 10.0**e),
                    min_size=1, max_size=8),
                "one": st.booleans(),
            }
        )
    ),
    "every case",
    quick=600,
)
def older(case):
    curve = curves.make_sn(case["curve"])
    out = {"number" if case["one"] else "array"}
    for old, new, values in (("n", "get_cycles", case["stress"]),
                             ("sigma", "get_stress", case["cycles"])):
        arg = values[0] if case["one"] else np.array(values)
        got, seen = warned(old, getattr(curve, old), arg)
        want, other = warned(new, getattr(curve, new), arg)
        exactly(np.atleast_1d(floats_of(got, old)),
                np.atleast_1d(floats_of(want, new)), old)
        check(np.shape(got) == np.shape(want), f"{old}: another shape")
        judge(seen, "backwards compatibility", True, old, FutureWarning)
        judge(other, "backwards compatibility", False, new, FutureWarning)
    return out


def floats_of(value, what):
    return floats(value, what, np.ndim(value))


# --------------------------------------------------------------- crossings
@subtest(
    P,
    "crossings",
    lambda: st.fixed_dictionaries(
        {
            "x": st.lists(gen.grid(-4, 4, 1), min_size=0, max_size=8),
            "level": gen.grid(-6, 6, 1),
            "kind": st.sampled_from([None, "all", "du", "u", "d"]),
        }
    ),
    "every case",
    quick=1500,
)
def crossings(case):
    x, level = case["x"], case["level"]
    every = ref.crossings(x, level)
    _, seen = warned("crossings", findcross, np.array(x, float), level,
                     case["kind"])
    return judge(seen, "crossings found", not every, "no crossing") or {
        "crossing"}
