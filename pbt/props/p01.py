"""P01: rainflow counting follows ASTM E1049."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.rainflow import findrfc_astm, rainflow

from pbt import gen, turns
from pbt.core import check, exactly, floats, observing, part, rejects, same
from pbt.core import subtest
from pbt.ref import rainflow as ref

P = "P01"


def scale_of(x):
    return max([abs(v) for v in x] + [1e-300])


def compare_rows(got, x, what, rows=None):
    if rows is None:
        rows, _ = ref.rainflow(x)
    if not rows:
        with observing(what):
            got = np.asarray(got, float)
            check(len(got) == 0, f"{what}: {len(got)} cycles, not none")
        return rows
    got = floats(got, what, 2)
    check(
        got.shape == (len(rows), 5),
        f"{what}: shape {got.shape} instead of {(len(rows), 5)}",
    )
    got = got[np.argsort(got[:, 3], kind="stable")]
    want = np.array(rows, dtype=float)
    want[:, 0] /= 2
    tol = 1e-13 * scale_of(x)
    for col, name in enumerate(
        ("amplitude", "mean", "count", "begin", "period")
    ):
        same(
            got[:, col],
            want[:, col],
            f"{what} {name}",
            0.0,
            tol if col < 2 else 0.0,
        )
    return rows


def compare_entries(cc, rows, x):
    with observing("cycle-count"):
        got = np.column_stack(
            [
                floats(cc.stress_range, "stress range"),
                floats(cc.mean_stress, "mean stress"),
                floats(cc.count_cycle, "count"),
            ]
        )
    check(
        len(got) == len(rows), f"{len(got)} entries instead of {len(rows)}"
    )
    got = np.array(sorted(map(tuple, got.tolist())))
    want = np.array(sorted(r[:3] for r in rows))
    tol = 2e-13 * scale_of(x)
    for col, name in enumerate(("range", "mean", "count")):
        same(got[:, col], want[:, col], f"{name} of the count", 0.0, tol)


def compare_residuals(out, x, what):
    _, res = ref.rainflow(x)
    exactly(part(out, 1), [x[i] for i in res], f"{what} residual sequence")
    exactly(part(out, 2), res, f"{what} residual sample numbers")


def classify(x, rows):
    labels = set()
    if not rows:
        return labels
    labels.add("cycles")
    halves = sum(r[2] == 0.5 for r in rows)
    if halves < len(rows):
        labels.add("full cycles")
    if halves > 2:
        labels.add("diverging or converging residue")
    ranges = [r[0] for r in rows]
    if len(set(ranges)) < len(ranges):
        labels.add("tied ranges")
    if any(a == b for a, b in zip(x, x[1:])):
        labels.add("plateau")
    if len(x) > 1 and x[0] == x[1]:
        labels.add("flat start")
    if len(rows) == 1:
        labels.add("single half cycle")
    if len(x) > 99:
        labels.add("long")
    return labels


@subtest(
    P,
    "array",
    lambda: st.one_of(
        gen.any_signal(1, 30),
        gen.any_signal(1, 30),
        gen.long_signal(),
        gen.spirals(),
    ),
    "the signal has at least one cycle",
    quick=900,
    weight=2,
)
def array(case):
    x = gen.expand(case)
    out = rainflow(np.array(x, dtype=float))
    with observing("rainflow"):
        check(len(out) == 3, f"{len(out)} outputs instead of 3")
    rows = compare_rows(part(out, 0), x, "rainflow")
    compare_residuals(out, x, "rainflow")
    return classify(x, rows)


@subtest(
    P,
    "records",
    lambda: st.fixed_dictionaries(
        {
            "x": st.one_of(
                gen.record([1000, 4000, 8000, 32750, 65500, 66000]),
                gen.spirals(500, 3000),
            ),
            "via": st.sampled_from(["rainflow", "cycle count"]),
        }
    ),
    "the signal has at least one cycle",
    quick=18,
    weight=150,
)
def records(case):
    x = gen.expand(case["x"])
    rows, res = ref.rainflow(x)
    if case["via"] == "rainflow":
        out = rainflow(np.array(x))
        compare_rows(part(out, 0), x, "rainflow", rows)
        exactly(part(out, 1), [x[i] for i in res], "residual sequence")
        exactly(part(out, 2), res, "residual sample numbers")
    else:
        cc = CycleCount.from_timeseries(np.array(x))
        compare_entries(cc, rows, x)
        exactly(
            cc.residuals_sequence, [x[i] for i in res], "residual sequence"
        )
    return classify(x, rows) | {
        case["via"],
        "spiral" if "spiral" in case["x"] else "walk",
        f"more than {max(n for n in (99, 999, 9999, 32767, 65535) if n < len(x))} samples",
    }


@st.composite
def forms_case(draw):
    form = draw(
        st.sampled_from(
            [
                "list",
                "int list",
                "mixed list",
                "int64",
                "int32",
                "int16",
                "int8",
                "uint8",
                "uint16",
                "uint64",
                "float32",
                "strided",
                "reversed view",
                "read only",
            ]
        )
    )
    if form == "mixed list":
        # whole numbers written as integers among the floats
        vals = st.one_of(
            st.integers(-20, 20), gen.grid(-20, 20, 0.25).map(float)
        )
        x = draw(st.lists(vals, min_size=1, max_size=20))
    elif "int" in form:
        lo, hi = (-100, 100)
        if form.startswith("uint"):
            lo, hi = (0, 200)
        elif form == "int8":
            lo, hi = (-128, 127)
        vals = st.one_of(
            st.integers(lo, hi),
            st.integers(max(lo, -2), min(hi, 2)),
            st.sampled_from([lo, hi]),
        )
        x = draw(st.lists(vals, min_size=1, max_size=20))
    else:
        x = draw(gen.exact_signal(1, 20))
    return {
        "form": form,
        "x": x,
        "extended": draw(st.booleans()),
        "time": draw(
            st.one_of(
                st.none(),
                st.tuples(
                    st.sampled_from(["list", "array"]),
                    st.one_of(gen.grid(-100, 100, 0.5),
                              st.sampled_from([1.6e9, 737000.123456789])),
                    st.one_of(gen.grid(0.25, 8, 0.25),
                              st.sampled_from([0.01, 1 / 3, 1e-7, 1e5 / 7])),
                ),
            )
        ),
    }


def make(form, x):
    if form.endswith("list"):
        return list(x)
    if form == "strided":
        return np.repeat(np.array(x, float), 3)[::3]
    if form == "reversed view":
        return np.array(x[::-1], float)[::-1]
    if form == "read only":
        arr = np.array(x, float)
        arr.flags.writeable = False
        return arr
    return np.array(x, dtype=form)


@subtest(
    P,
    "forms",
    forms_case,
    "the signal has at least one cycle",
    quick=600,
)
def forms(case):
    x = case["x"]
    data = make(case["form"], x)
    kwargs = {}
    if case["time"] is not None:
        kind, start, step = case["time"]
        tim = [start + i * step + (i % 3) * step / 4 for i in range(len(x))]
        kwargs["time"] = tim if kind == "list" else np.array(tim)
    out = rainflow(data, extended_output=case["extended"], **kwargs)
    labels = set()
    if not case["extended"]:
        rows = compare_rows(out, x, "rainflow without extended output")
        labels.add("short output")
    else:
        with observing("rainflow"):
            n_out = 4 if kwargs else 3
            check(
                len(out) == n_out, f"{len(out)} outputs instead of {n_out}"
            )
        rows = compare_rows(part(out, 0), x, "rainflow")
        compare_residuals(out, [float(v) for v in x], "rainflow")
        if kwargs:
            _, res = ref.rainflow(x)
            exactly(part(out, 3), [tim[i] for i in res], "residual times")
            labels.add("time")
    if not rows:
        return ()
    return labels | {case["form"]} | classify(x, rows)


@subtest(
    P,
    "reversals only",
    lambda: st.fixed_dictionaries(
        {
            "x": gen.any_signal(1, 30),
            "form": st.sampled_from(["list", "array"]),
        }
    ),
    "the reversals contain at least one cycle",
    quick=400,
)
def reversals_only(case):
    x = case["x"]
    idx = ref.turning_points(x)
    vals = [x[i] for i in idx]
    data = vals if case["form"] == "list" else np.array(vals)
    got = findrfc_astm(data)
    rows, _ = ref.rainflow(x)
    if not rows:
        with observing("findrfc_astm"):
            check(len(got) == 0, "cycles found where there is none")
        return ()
    got = floats(got, "findrfc_astm", 2)
    want = [(r[0] / 2, r[1], r[2]) for r in rows]
    check(
        got.shape == (len(want), 3),
        f"findrfc_astm: shape {got.shape} instead of {(len(want), 3)}",
    )
    tol = 1e-13 * scale_of(x)
    got = sorted(map(tuple, got.tolist()))
    for g, w in zip(got, sorted(want)):
        same(g, w, "findrfc_astm row", 0.0, tol)
    return classify(x, rows)


@subtest(
    P,
    "cycle count",
    lambda: st.fixed_dictionaries(
        {
            "x": gen.varying(
                st.one_of(gen.any_signal(2, 30), gen.exact_signal(2, 60))
            ),
            "form": st.sampled_from(["list", "float64", "float32"]),
            "time": st.sampled_from([None, None, 0.0, 3.0, 1.6e9]),
        }
    ),
    "the count has at least one cycle",
    quick=500,
    weight=1.5,
)
def cycle_count(case):
    x = case["x"]
    if case["form"] == "float32":
        x = np.array(x, dtype="float32").astype(float).tolist()
        if min(x) == max(x):
            return ()
    data = x if case["form"] == "list" else np.array(x, dtype=case["form"])
    tim = None
    if case["time"] is not None:
        tim = case["time"] + np.arange(len(x)) * 0.5
    cc = CycleCount.from_timeseries(data, time=tim)
    rows, res = ref.rainflow(x)
    compare_entries(cc, rows, x)
    exactly(cc.residuals_sequence, [x[i] for i in res], "residual sequence")
    return classify(x, rows)


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "x": st.lists(st.integers(-9, 9), min_size=2, max_size=8),
            "what": st.sampled_from(
                ["data tuple", "data text", "data none", "time tuple",
                 "time number", "time short", "time long"]
            ),
            "as_list": st.booleans(),
        }
    ),
    "every case",
    quick=60,
)
def rejection(case):
    x, what = case["x"], case["what"]
    data = list(x) if case["as_list"] else np.array(x, float)
    tim = list(range(len(x)))
    if what.startswith("data"):
        bad = {"data tuple": tuple(x), "data text": "12", "data none": None}
        rejects(what, TypeError, rainflow, bad[what])
    elif what == "time tuple":
        rejects(what, TypeError, rainflow, data, tuple(tim))
    elif what == "time number":
        rejects(what, TypeError, rainflow, data, 3.0)
    else:
        tim = tim[:-1] if what == "time short" else tim + [99]
        tim = tim if case["as_list"] else np.array(tim)
        rejects(what, ValueError, rainflow, data, tim)
    return {what}


@subtest(
    P,
    "same array again",
    lambda: st.fixed_dictionaries(
        {
            "signals": st.integers(3, 16).flatmap(
                lambda n: st.lists(gen.varying(gen.exact_signal(n, n)),
                                   min_size=2, max_size=3)),
            "through": st.sampled_from(["rainflow", "count"]),
        }
    ),
    "a signal with a cycle",
    quick=300,
    weight=2,
)
def again(case):
    n = min(len(x) for x in case["signals"])
    data, out, counted = np.empty(n), set(), []
    for x in case["signals"] + case["signals"][:1]:
        x = x[:n]
        if min(x) == max(x):
            continue
        data[:] = x
        rows, res = ref.rainflow(x)
        want = [x[i] for i in res]
        if case["through"] == "rainflow":
            got = rainflow(data)
            compare_rows(part(got, 0), x, "rainflow")
            compare_residuals(got, [float(v) for v in x], "rainflow")
        else:
            cc = CycleCount.from_timeseries(data)
            compare_entries(cc, rows, x)
            exactly(cc.residuals_sequence, want, "residual sequence")
            counted.append((cc, rows, x, want))
        if rows:
            out.add(case["through"])
    # counts do not change with the array they were made from
    for cc, rows, x, want in counted:
        compare_entries(cc, rows, x)
        exactly(cc.residuals_sequence, want, "residual sequence")
    return out


# ----------------------------------------------------------- one after another
turns.in_turn(P, "cycle count", {
    "signal": turns.part("x"),
    "form": turns.part("form"),
    "time": turns.part("time"),
    "scaled": turns.changed("x", by=lambda x: [0.5 * v for v in x]),
    "backwards": turns.changed("x", by=lambda x: x[::-1]),
}, quick=450)
