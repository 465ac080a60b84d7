"""P02: rainflow cycles transform with the signal."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount
from py_fatigue.cycle_count.rainflow import rainflow

from pbt import gen
from pbt.core import check, floats, part, same, same_cycles, same_number
from pbt.core import subtest

P = "P02"


def count(x, via):
    """Entries (range, mean, count) and the residual sequence."""
    arr = np.array(x, dtype=float)
    if via == "rainflow":
        out = rainflow(arr)
        rows = floats(part(out, 0), "rainflow", 2)
        return (
            [(2 * r[0], r[1], r[2]) for r in rows.tolist()],
            floats(part(out, 1), "residual sequence").tolist(),
        )
    cc = CycleCount.from_timeseries(arr)
    return (
        list(
            zip(
                floats(cc.stress_range, "stress range").tolist(),
                floats(cc.mean_stress, "mean stress").tolist(),
                floats(cc.count_cycle, "count").tolist(),
            )
        ),
        floats(cc.residuals_sequence, "residual sequence").tolist(),
    )


def transform():
    return st.one_of(
        st.tuples(st.just("shift"), gen.grid(-500, 500, 0.25)),
        st.tuples(
            st.just("scale"),
            st.sampled_from([0.125, 0.5, 2.0, 3.0, 10.0]),
        ),
        st.tuples(st.just("mirror"), st.just(0)),
        st.tuples(
            st.just("repeat"), st.lists(st.integers(0, 3), max_size=12)
        ),
        st.tuples(
            st.just("fill"),
            st.lists(
                st.tuples(st.integers(0, 40), st.integers(1, 3)), max_size=6
            ),
        ),
    )


def apply(x, kind, arg):
    if kind == "shift":
        return [v + arg for v in x]
    if kind == "scale":
        return [v * arg for v in x]
    if kind == "mirror":
        return [-v for v in x]
    if kind == "repeat":
        out = []
        for i, v in enumerate(x):
            more = arg[i % len(arg)] if arg else 0
            out += [v] * (1 + more)
        return out
    out = list(x)
    for pos, how in arg:
        i = pos % max(len(out) - 1, 1)
        if len(out) < 2:
            break
        a, b = out[i], out[i + 1]
        mid = (a + b) / 2
        new = {1: [mid], 2: [(a + mid) / 2, mid], 3: [a, mid, b]}[how]
        out[i + 1 : i + 1] = new
    return out


@subtest(
    P,
    "transformations",
    lambda: st.fixed_dictionaries(
        {
            "x": gen.varying(
                st.one_of(
                    gen.exact_signal(2, 24),
                    gen.zigzag(4, 40),
                    gen.near_ties(4, 24, (6, 14, 20, 24)),
                )
            ),
            "chain": st.lists(transform(), min_size=1, max_size=3),
            # at the end only, to keep the arithmetic exact
            "last": st.sampled_from(
                [None, None, ("scale", 2.0**-50), ("scale", 2.0**40),
                 ("shift", 2.0**28), ("shift", -(2.0**36)),
                 ("shift", 2.0**40)]
            ),
            "via": st.sampled_from(["rainflow", "cycle count"]),
        }
    ),
    "the signal has two cycles at least and the transformation is not the "
    "identity",
    quick=1500,
    weight=2,
)
def transformations(case):
    x = case["x"]
    rows, res = count(x, case["via"])
    y = x
    labels = set()
    last = [case["last"]] if case["last"] else []
    for kind, arg in case["chain"] + last:
        z = apply(y, kind, arg)
        if kind == "shift" and [v - arg for v in z] != y:
            continue  # the shift rounds
        if z != y:
            labels.add(kind)
        if kind == "shift":
            rows = [(r, m + arg, n) for r, m, n in rows]
            res = [v + arg for v in res]
        elif kind == "scale":
            rows = [(r * arg, m * arg, n) for r, m, n in rows]
            res = [v * arg for v in res]
        elif kind == "mirror":
            rows = [(r, -m, n) for r, m, n in rows]
            res = [-v for v in res]
        y = z
    got, got_res = count(y, case["via"])
    same_cycles(got, rows, "cycles of the transformed signal", 1e-13)
    check(
        len(got) == len(rows), f"{len(got)} entries instead of {len(rows)}"
    )
    same(
        got_res,
        res,
        "residual sequence of the transformed signal",
        0.0,
        1e-13 * max(abs(v) for v in y),
    )
    return labels if len(rows) >= 2 else ()


@subtest(
    P,
    "records",
    lambda: st.fixed_dictionaries(
        {
            "x": st.one_of(
                gen.record([1000, 3000, 8000, 33000]),
                gen.spirals(500, 3000),
            ),
            "chain": st.tuples(transform()),
            "last": st.none(),
            "via": st.sampled_from(["rainflow", "cycle count"]),
        }
    ),
    "the signal has two cycles at least and the transformation is not the "
    "identity",
    quick=18,
    weight=150,
)
def records(case):
    x = gen.expand(case["x"])
    if case["chain"][0][0] in ("shift", "scale"):
        x = [round(v * 64) / 64 for v in x]
    return transformations(dict(case, x=x, chain=list(case["chain"])))


@subtest(
    P,
    "total variation",
    lambda: st.fixed_dictionaries(
        {
            "x": st.one_of(
                gen.any_signal(1, 40), gen.long_signal(), gen.spirals()
            ),
            "via": st.sampled_from(["rainflow", "cycle count"]),
        }
    ),
    "the signal varies",
    quick=700,
    weight=2,
)
def total_variation(case):
    x = gen.expand(case["x"])
    want = math.fsum(abs(b - a) for a, b in zip(x, x[1:]))
    if want == 0:
        if case["via"] == "rainflow":
            rows, _ = count(x, "rainflow") if len(x) > 1 else ([], [])
            check(not rows, "cycles in a constant signal")
        return ()
    rows, res = count(x, case["via"])
    got = 2 * math.fsum(r * n for r, _, n in rows)
    same_number(got, want, "weighted ranges", 1e-9)
    lo, hi = min(x), max(x)
    for r, m, n in rows:
        tol = 1e-9 * max(abs(lo), abs(hi))
        check(n in (0.5, 1.0), f"count {n}")
        check(
            r > 0 and m - r / 2 >= lo - tol and m + r / 2 <= hi + tol,
            f"cycle with range {r} and mean {m} outside [{lo}, {hi}]",
        )
    big = max(r for r, _, _ in rows)
    same_number(big, hi - lo, "largest range", 1e-9)
    # differences below the resolution of the numbers count as ties
    same_number(min(res), lo, "smallest residual", 0.0, 1e-9 * (hi - lo))
    same_number(max(res), hi, "largest residual", 0.0, 1e-9 * (hi - lo))
    return {"varying", "long" if len(x) > 99 else "short"}
