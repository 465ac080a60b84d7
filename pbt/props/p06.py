"""P06: applying an SCF."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from py_fatigue.cycle_count.cycle_count import CycleCount  # noqa: F401

from pbt import counts, gen, turns
from pbt.core import check, rejects, same_number, subtest

P = "P06"


def derived():
    """Counts, possibly corrected for the mean stress at the end."""
    return st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=2),
            "corrected": st.sampled_from([None, None, "SWT", "Walker",
                                          "DNVGL-RP-C203"]),
        }
    )


def build(case):
    cc, _ = counts.make(case["cc"])
    labels = counts.labels_of(case["cc"])
    if case["corrected"]:
        if any(m != 0 for _, m, _ in counts.rows_of(cc)):
            cc = cc.mean_stress_correction(
                case["corrected"], enforce_pulsating_load=True
            )
            labels.add("corrected")
    if any(
        not np.isfinite(v) for r in counts.rows_of(cc) for v in r
    ):
        return None, labels
    return cc, labels


FACTORS = st.one_of(
    st.sampled_from([1, 2, 3, 1.0, 0.5, 1.25, 1.5, 2.75]),
    st.integers(1, 50),
    gen.floats(0.01, 100),
    # other units
    st.sampled_from([1e-6, 1e-3, 1000, 1e6, 6.894757]),
)


@subtest(
    P,
    "factors",
    lambda: st.fixed_dictionaries(
        {
            "of": derived(),
            "chain": st.lists(
                st.tuples(FACTORS, st.booleans()), min_size=1, max_size=3
            ),
            "numpy": st.booleans(),
        }
    ),
    "a factor differs from one",
    quick=1000,
    weight=2,
)
def factors(case):
    cc, labels = build(case["of"])
    if cc is None:
        return ()
    model = counts.observe(cc)
    corrected = cc.mean_stress_corrected
    got = cc
    for f, left in case["chain"]:
        if case["numpy"] and isinstance(f, float):
            # numpy floats on the left would take over the multiplication
            left, f = False, np.float64(f)
        got = f * got if left else got * f
        model = model.mul(float(f))
        labels.add("left" if left else "right")
        labels.add("int" if isinstance(f, int) else "float")
    what = "count times SCF"
    counts.compare_rows(got, model, what)
    counts.compare_sequences(got, model, what)
    counts.compare_bins(got, model, what)
    counts.compare_times(got, model, what)
    counts.compare_state(got, model, what)
    check(
        got.mean_stress_corrected == corrected,
        f"{what}: correction {got.mean_stress_corrected!r}",
    )
    check(got.unit == model.unit, f"{what}: unit {got.unit!r}")
    name = str(cc.name) + "".join(f", SCF={float(f)}"
                                  for f, _ in case["chain"])
    check(got.name == name, f"{what}: name {got.name!r}, not {name!r}")
    same_number(got.nr_small_cycles, model.small, f"{what}: small cycles")
    same_number(
        got.stress_concentration_factor, model.scf, f"{what}: SCF", 1e-9
    )
    if all(f == 1 for f, _ in case["chain"]):
        return ()
    if model.small:
        labels.add("small cycles")
    if len(model.times) > 1:
        labels.add("several times")
    return labels


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "what": st.sampled_from(
                ["text", "none", "list", "tuple", "dict", "count", "array",
                 "complex"]
            ),
        }
    ),
    "every case",
    quick=150,
)
def rejection(case):
    cc, _ = counts.make(case["cc"])
    thing = {
        "text": "2",
        "none": None,
        "list": [2.0],
        "tuple": (2.0,),
        "dict": {},
        "count": cc,
        "array": np.array([1.0, 2.0]),
        "complex": 2j,
    }[case["what"]]
    rejects("not a number", TypeError, lambda: cc * thing)
    if case["what"] not in ("array",):
        rejects("not a number", TypeError, lambda: thing * cc)
    return {case["what"]}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "factors", {"factors": turns.part("chain")}, quick=360)
