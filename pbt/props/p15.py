"""P15: nonlinear damage rules and the Gassner factor."""

from __future__ import annotations

import math
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from py_fatigue.damage.stress_life import calc_nonlinear_damage
from py_fatigue.damage.stress_life import calc_pm, get_nonlinear_damage

from pbt import counts, curves, gen, turns
from pbt.core import call, check, close, fail, floats, number, rejects
from pbt.core import same, subtest
from pbt.props.p13 import scaled_curve, spectrum

P = "P15"
RULES = {
    "pavlou": "pavlou",
    "manson": "manson",
    "manson and halford": "manson",
    "manson halford": "manson",
    "leve": "leve",
    "si jian": "si jian",
    "si jian et al": "si jian",
}


def exponents(rule, stress, life, base, ultimate):
    """One per block; depends on the block and the next one."""
    kind = RULES[rule]
    n = len(stress)
    if kind == "leve":
        return [2 if base is None else base] * n
    out = []
    for j in range(n):
        if j == n - 1:
            out.append(1.0)
        elif kind == "pavlou":
            p = -0.75 if base is None else base
            u = 900 if ultimate is None else ultimate
            out.append((stress[j + 1] / 2 / u) ** p
                       / (stress[j] / 2 / u) ** p)
        elif kind == "manson":
            p = 0.4 if base is None else base
            out.append((life[j] / life[j + 1]) ** p)
        else:
            out.append(stress[j + 1] / stress[j])
    return out


def accumulate(damages, exps):
    """Total damage and how uncertain rounding makes it."""
    total, err = 0.0, 0.0
    for d, e in zip(damages, exps):
        total += d
        if total == 0:
            if e == 0:
                return 1.0, 1.0
            continue
        log = e * math.log(total)
        err = abs(e) * (err + 1e-12) + abs(log) * 1e-12 + 1e-12
        if abs(log) > 600:
            return (math.inf if log > 0 else 0.0), 1.0
        total = math.exp(log)
    return total, err


def compare(got, case, stress, count, what):
    """Labels when the case decides something."""
    curve = case["curve"]
    if any(curves.at_endurance(curve, s) for s in stress):
        return None
    life = [curves.ref_cycles(curve, s) for s in stress]
    exps = exponents(case["rule"], stress, life, case["base"],
                     case["ultimate"])
    damages = [c / n for c, n in zip(count, life)]
    want, err = accumulate(damages, exps)
    got = number(got, what)
    if err > 1e-5:
        return None
    if not close(got, want, 1e-8 + err):
        fail(f"{what} by {case['rule']}: got {got!r}, expected {want!r} "
             f"(exponents {exps[:6]})")
    out = {case["rule"],
           "one block" if len(stress) == 1 else "several blocks"}
    if case["base"] is None:
        out.add("preset")
    if stress != sorted(stress):
        out.add("not increasing")
    if want == 0:
        return None
    return out


def kwargs_of(case):
    out = {}
    kind = RULES[case["rule"]]
    if case["base"] is not None and kind != "si jian":
        out["base_exponent"] = case["base"]
    if case["ultimate"] is not None and kind == "pavlou":
        out["ultimate_stress"] = case["ultimate"]
    return out


def quietly(fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return call("nonlinear damage", fn, *args, **kwargs)


@st.composite
def rules(draw):
    rule = draw(st.sampled_from(sorted(RULES)))
    kind = RULES[rule]
    base = None
    if kind != "si jian" and draw(st.booleans()):
        base = draw({
            "pavlou": gen.grid(-1.5, 0, 0.125),
            "manson": gen.grid(0, 1, 0.125),
            "leve": gen.grid(0.5, 6, 0.25),
        }[kind])
    ultimate = None
    if draw(st.booleans()):
        ultimate = draw(gen.grid(300, 1500, 50))
    return rule, base, ultimate


@st.composite
def cases(draw):
    rule, base, ultimate = draw(rules())
    # the ratio of two infinite lives is not defined
    end = False if RULES[rule] == "manson" else "any"
    spec = draw(spectrum(curves.sn(endurance=end), max_size=6))
    stress = [s if s > 0 else 1.0 for s in spec["stress"]]
    # damages between 1e-6 and 10
    count = []
    for s in stress:
        n = 10 ** min(curves.log_cycles(spec["curve"], s), 12)
        count.append(n * 10 ** draw(gen.grid(-5, 1, 0.25)))
    # many blocks
    times = draw(st.sampled_from([1] * 8 + [4, 20, 60]))
    return {"rule": rule, "base": base, "ultimate": ultimate,
            "curve": spec["curve"], "stress": stress * times,
            "count": [c / times for c in count] * times,
            "layout": draw(st.sampled_from(gen.LAYOUTS))}


@subtest(P, "arrays", cases, "damage that rounding does not decide",
         quick=1500)
def arrays(case):
    got = quietly(
        calc_nonlinear_damage, case["rule"],
        gen.laid_out(case["stress"], case["layout"]),
        gen.laid_out(case["count"], case["layout"]),
        curves.make_sn(case["curve"]), **kwargs_of(case)
    )
    out = compare(got, case, case["stress"], case["count"], "damage")
    if not out:
        return ()
    return out | {case["layout"],
                  "many blocks" if len(case["stress"]) > 12 else
                  "few blocks"}


@st.composite
def count_cases(draw):
    rule, base, ultimate = draw(rules())
    end = False if RULES[rule] == "manson" else "any"
    return {
        "rule": rule, "base": base, "ultimate": ultimate,
        "curve": scaled_curve(draw(curves.sn(endurance=end)),
                              draw(st.sampled_from([0.3, 0.1, 0.03]))),
        "cc": draw(counts.counts(depth=1)),
    }


@subtest(P, "cycle-count", count_cases,
         "damage that rounding does not decide", quick=500, weight=2)
def of_count(case):
    cc, _ = counts.make(case["cc"])
    rows = counts.rows_of(cc)
    got = quietly(
        get_nonlinear_damage, case["rule"], cc,
        curves.make_sn(case["curve"]), **kwargs_of(case)
    )
    return compare(got, case, [r[0] for r in rows], [r[2] for r in rows],
                   "damage of a count") or ()


@subtest(
    P,
    "exponent one",
    lambda: st.tuples(
        spectrum(curves.sn(endurance=False)),
        st.sampled_from(["leve", "pavlou", "manson halford", "si jian"]),
    ),
    "some damage",
    quick=300,
)
def exponent_one(case):
    spec, rule = case
    stress, count = list(spec["stress"]), spec["count"]
    kwargs = {"leve": {"base_exponent": 1}, "pavlou": {"base_exponent": 0},
              "manson halford": {"base_exponent": 0}, "si jian": {}}[rule]
    stress = [s if s > 0 else 1.0 for s in stress]
    if rule == "si jian":
        # equal ranges have ratio one
        stress = [stress[0]] * len(stress)
    if rule == "pavlou":
        kwargs["ultimate_stress"] = 500
    curve = curves.make_sn(spec["curve"])
    got = quietly(calc_nonlinear_damage, rule, np.array(stress),
                  np.array(count), curve, **kwargs)
    want = math.fsum(floats(
        call("damage", calc_pm, np.array(stress), np.array(count), curve),
        "damage"))
    check(close(number(got, "damage"), want, 1e-9),
          f"{rule} with exponents one: {got!r}, linear damage {want!r}")
    return {rule} if want else ()


@subtest(
    P,
    "gassner",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=2),
            "curve": curves.sn(branches=(1, 1)),
            "index": st.sampled_from(counts.INDEXES),
            "share": st.lists(st.sampled_from([1, 0.1, 0.25, 3, 40]),
                              min_size=1, max_size=4),
        }
    ),
    "several ranges",
    quick=350,
    weight=3,
)
def gassner(case):
    cc, _ = counts.make(case["cc"])
    rows = counts.rows_of(cc)
    df = counts.frame_of(cc, case["index"])
    # any number of cycles
    share = [case["share"][i % len(case["share"])] for i in range(len(rows))]
    df["count_cycle"] = df["count_cycle"] * share
    rows = [(r[0], r[1], r[2] * f) for r, f in zip(rows, share)]
    curve = curves.make_sn(case["curve"])
    out = df.gassner.g(curve)
    for what, where in (("table", out), ("accessor", df.gassner)):
        check(getattr(where, "sn_curve", None) == curve,
              f"the {what} does not keep the curve")
    total = math.fsum(r[2] for r in rows)
    top = max(r[0] for r in rows)
    want = [r[2] / total * (r[0] / top) ** case["curve"]["m"][0]
            for r in rows]
    same(out["shift_factor"].to_numpy(), want, "Gassner factor", 1e-9,
         1e-250)
    if len({r[0] for r in rows}) < 2:
        return ()
    return counts.labels_of(case["cc"]) | {f"index {case['index']}"}


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1, unit="MPa"),
            "kcc": counts.counts(depth=1, unit="ksi"),
            "curve": curves.sn(),
            "what": st.sampled_from(["rule", "unit", "unit other way",
                                     "length", "gassner", "columns",
                                     "shifted"]),
            "column": st.sampled_from(["count_cycle", "mean_stress",
                                       "stress_range"]),
            "rule": st.sampled_from(sorted(RULES)),
            "bad": st.sampled_from(["miner", "henry", "palmgren", "", "xyz",
                                    "marco starkey"]),
            "count": st.booleans(),
        }
    ),
    "every case but straight curves for the Gassner factor",
    quick=250,
)
def rejection(case):
    what = case["what"]
    cc, _ = counts.make(case["cc"])
    curve = curves.make_sn(case["curve"])
    if what == "rule":
        if case["count"]:
            rejects("unknown rule", ValueError, quietly_raise,
                    get_nonlinear_damage, case["bad"], cc, curve)
        else:
            rejects("unknown rule", ValueError, quietly_raise,
                    calc_nonlinear_damage, case["bad"], cc.stress_range,
                    cc.count_cycle, curve)
        return {what, case["bad"]}
    if what in ("columns", "shifted"):
        df = cc.to_df()
        if what == "columns":
            df = df.drop(columns=[case["column"]])
        else:
            df["shift_factor"] = 1.0
        rejects(f"Gassner factor of a table: {what}", AttributeError,
                lambda: df.gassner)
        return {what}
    if what == "gassner":
        if len(case["curve"]["m"]) == 1:
            return ()
        # as many entries as branches
        n = len(case["curve"]["m"])
        df = pd.DataFrame({
            "count_cycle": np.resize(cc.count_cycle, n),
            "mean_stress": np.resize(cc.mean_stress, n),
            "stress_range": np.resize(cc.stress_range, n)})
        rejects("Gassner factor of a curve with knees",
                (AssertionError, ValueError), df.gassner.g, curve)
        return {what}
    if what == "length":
        for wrong in gen.UNEQUAL:
            rejects(f"lists of different length {wrong}", ValueError,
                    quietly_raise, calc_nonlinear_damage, case["rule"],
                    *map(np.array, wrong), curve)
        return {what}
    if what == "unit":
        curve = curves.make_sn(dict(case["curve"], unit="ksi"))
    else:
        cc, _ = counts.make(case["kcc"])
    rejects("curve in another unit", ValueError, quietly_raise,
            get_nonlinear_damage, case["rule"], cc, curve)
    return {what, case["rule"]}


def quietly_raise(fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*args, **kwargs)


# ----------------------------------------------------------- one after another
turns.in_turn(P, "arrays", {
    "rule": lambda a, b: (None if a["curve"]["end"] is not None
                          and RULES[b["rule"]] == "manson"
                          else dict(a, rule=b["rule"], base=b["base"],
                                    ultimate=b["ultimate"])),
    "more cycles": turns.changed(
        "count", by=lambda count: [1.5 * c for c in count]),
    "curve": turns.changed("curve", by=turns.lower),
    "fewer branches": turns.changed("curve", by=turns.fewer_branches),
    "no endurance": turns.changed("curve", by=turns.no_end),
}, quick=600)
turns.in_turn(P, "gassner", {
    "curve": turns.part("curve"),
    "index": turns.part("index"),
    **turns.of_counts("cc"),
}, quick=180)
