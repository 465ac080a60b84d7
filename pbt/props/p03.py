"""P03: reversals and level crossings."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from py_fatigue.cycle_count.rainflow import findcross, findextrema, findtp

from pbt import gen, turns
from pbt.core import check, exactly, floats, rejects, subtest
from pbt.ref import rainflow as ref

P = "P03"

FORMS = [
    "list",
    "float64",
    "float32",
    "int64",
    "int8",
    "uint8",
    "strided",
    "row vector",
]


def make(form, x):
    if form == "list":
        return list(x)
    if form == "strided":
        return np.repeat(np.array(x, float), 2)[::2]
    if form == "row vector":
        return np.array([x], float)
    return np.array(x, dtype=form)


@st.composite
def cross_case(draw):
    form = draw(st.sampled_from(FORMS))
    level = draw(st.sampled_from([0, 0.0, 1, -1, 0.5, -0.25, 2]))
    if form == "uint8":
        vals = st.one_of(st.integers(0, 3), st.integers(0, 255))
    elif form in ("int8", "int64"):
        vals = st.one_of(st.integers(-3, 3), st.integers(-128, 127))
    else:
        vals = st.one_of(
            st.sampled_from([-1.0, 0.0, 1.0, 0.5, 2.0, -0.25]),
            gen.grid(-3, 3, 0.25),
        )
    x = draw(st.lists(vals, min_size=0 if form == "list" else 1, max_size=20))
    return {
        "form": form,
        "x": x,
        "level": level,
        "default": draw(st.booleans()) and level == 0,
        "kind": draw(st.sampled_from([None, "all", "du", "u", "d"])),
    }


@subtest(
    P,
    "crossings",
    cross_case,
    "the signal crosses the level",
    quick=1500,
)
def crossings(case):
    data = make(case["form"], case["x"])
    kwargs = {} if case["default"] else {"v": case["level"]}
    if case["kind"] is not None:
        kwargs["kind"] = case["kind"]
    got = findcross(data, **kwargs)
    every = ref.crossings(case["x"], case["level"])
    dirs = {"u": (1,), "d": (-1,)}.get(case["kind"], (1, -1))
    want = [i for i, d in every if d in dirs]
    exactly(got, want, f"crossings of kind {case['kind']}")
    if not every:
        return ()
    labels = {f"kind {case['kind']}", case["form"], f"level {case['level']}"}
    x, lev = case["x"], case["level"]
    if x[0] == lev:
        labels.add("starts on the level")
    if lev in x[1:]:
        labels.add("samples on the level")
    if len(every) > 2:
        labels.add("several crossings")
    return labels


@subtest(
    P,
    "crossings of floats",
    lambda: st.fixed_dictionaries(
        {
            "x": st.one_of(gen.any_signal(1, 30), gen.long_signal(100, 300)),
            "pick": st.integers(0, 29),
            "off": st.sampled_from([0.0, 0.0, 1e-9, -1e-9, 0.125]),
            "kind": st.sampled_from([None, "u", "d"]),
        }
    ),
    "the signal crosses the level",
    quick=500,
)
def crossings_floats(case):
    x = gen.expand(case["x"])
    level = x[case["pick"] % len(x)] + case["off"]
    got = findcross(np.array(x), level, case["kind"])
    every = ref.crossings(x, level)
    dirs = {"u": (1,), "d": (-1,)}.get(case["kind"], (1, -1))
    exactly(got, [i for i, d in every if d in dirs], "crossings")
    return {"on a sample" if case["off"] == 0 else "off"} if every else ()


@st.composite
def reversal_case(draw):
    form = draw(st.sampled_from(FORMS))
    if form in ("uint8", "int8", "int64"):
        lo, hi = (0, 255) if form == "uint8" else (-128, 127)
        vals = st.one_of(
            st.integers(lo, hi),
            st.integers(max(lo, -1), 2),
            st.sampled_from([lo, hi]),
        )
        x = draw(gen.runs(vals, 1, 12))
    else:
        x = draw(
            st.one_of(
                gen.exact_signal(1, 24),
                gen.runs(st.sampled_from([-1.0, 0.0, 1.0]), 1, 14),
                gen.any_scale(gen.runs(gen.grid(-4, 4, 0.5), 1, 10)),
            )
        )
        if form == "float32":
            x = np.array(x, "float32").astype(float).tolist()
    return {"form": form, "x": x}


@subtest(
    P,
    "reversals",
    reversal_case,
    "the signal has at least one extremum",
    quick=1500,
)
def reversals(case):
    x = case["x"]
    data = make(case["form"], x)
    want = ref.extrema(x)
    exactly(findextrema(data), want, "extrema")
    if case["form"] != "row vector":
        tp = ref.turning_points(x)
        exactly(findtp(data), tp, "turning points")
    labels = set()
    if want:
        labels.add(case["form"])
        if any(a == b for a, b in zip(x, x[1:])):
            labels.add("plateau")
        if len(x) > 1 and x[0] == x[1]:
            labels.add("flat start")
        if len(x) > 1 and x[-1] == x[-2]:
            labels.add("flat end")
    return labels


@subtest(
    P,
    "long signals",
    lambda: st.fixed_dictionaries(
        {
            "x": st.one_of(
                gen.long_signal(100, 800),
                gen.spirals(200, 3000),
                gen.record([1000, 8000, 32750, 65500, 66000]),
            ),
            "level": gen.grid(-20, 20, 0.25),
            "kind": st.sampled_from([None, "u", "d"]),
        }
    ),
    "the signal has at least one extremum",
    quick=60,
    weight=30,
)
def long_signals(case):
    x = gen.expand(case["x"])
    want = ref.extrema(x)
    exactly(findextrema(np.array(x)), want, "extrema")
    exactly(findtp(np.array(x)), ref.turning_points(x), "turning points")
    dirs = {"u": (1,), "d": (-1,)}.get(case["kind"], (1, -1))
    cross = [i for i, d in ref.crossings(x, case["level"]) if d in dirs]
    exactly(
        findcross(np.array(x), case["level"], case["kind"]),
        cross,
        "crossings",
    )
    if not want:
        return ()
    out = {"crossings"} if cross else {"no crossing"}
    return out | {f"more than {max(n for n in (9, 99, 999, 9999, 32767, 65535) if n < len(x))} samples"}


@subtest(
    P,
    "constant",
    lambda: st.fixed_dictionaries(
        {
            "v": gen.grid(-5, 5, 0.5),
            "n": st.one_of(st.integers(0, 12), st.integers(13, 4000)),
            "as_list": st.booleans(),
        }
    ),
    "the signal is not empty",
    quick=60,
)
def constant(case):
    x = [case["v"]] * case["n"]
    data = x if case["as_list"] else np.array(x, float)
    check(
        len(floats(findtp(data), "turning points")) == 0,
        "turning points in a constant signal",
    )
    check(
        len(floats(findextrema(data), "extrema")) == 0,
        "extrema in a constant signal",
    )
    return {"constant"} if case["n"] else ()


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "x": st.lists(gen.grid(-3, 3, 0.5), min_size=0, max_size=10),
            "nan": st.one_of(st.none(), st.integers(0, 10)),
            "kind": st.sampled_from(
                ["x", "up", "down", "ud", "", "dw", 1, "tw"]
            ),
            "as_list": st.booleans(),
        }
    ),
    "every case",
    quick=150,
)
def rejection(case):
    if case["nan"] is None:
        # a signal that crosses zero for sure
        x = case["x"] + [-1.0, 1.0]
        data = x if case["as_list"] else np.array(x)
        rejects(
            "unknown crossing", ValueError, findcross, data, 0.0, case["kind"]
        )
        return {"unknown kind"}
    x = list(case["x"])
    x.insert(case["nan"] % (len(x) + 1), float("nan"))
    data = x if case["as_list"] else np.array(x)
    rejects("NaN in crossings", ValueError, findcross, data)
    if len(x) > 1:
        rejects("NaN in extrema", ValueError, findextrema, data)
        rejects("NaN in turning points", ValueError, findtp, data)
    return {"nan"}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "crossings", {
    "signal": turns.parts("x", "form"),
    "level": turns.parts("level", "default"),
    "kind": turns.part("kind"),
    "backwards": turns.changed("x", by=lambda x: x[::-1]),
}, quick=600)
