"""Cycle-counts under test and their reference models, built from JSON."""

from __future__ import annotations

import datetime as dt

import numpy as np
from hypothesis import strategies as st

from py_fatigue import CycleCount

from pbt import gen
from pbt.core import check, floats, number, observing, same, same_cycles
from pbt.core import same_number
from pbt.ref import count as refc

BASE = dt.datetime(2021, 3, 4, 5, 6, tzinfo=dt.timezone.utc)
NAIVE = dt.datetime(2021, 3, 4, 5, 6)


def stamp(minute, naive=False):
    return (NAIVE if naive else BASE) + dt.timedelta(minutes=minute)


# ------------------------------------------------------------------ specs
def small_signal():
    return gen.varying(
        st.one_of(gen.exact_signal(2, 14), gen.zigzag(3, 14))
    )


@st.composite
def leaf(draw, minute, unit="MPa", name=None, signal=None):
    """A count made from a signal or from saved data."""
    spec = {
        "op": "ts",
        "x": draw(signal if signal is not None else small_signal()),
        "t": minute,
        "unit": unit,
        "name": name,
    }
    if draw(st.booleans()):
        spec["bins"] = {
            "range_bin_lower_bound": draw(gen.grid(0, 4, 0.25)),
            "range_bin_width": draw(gen.grid(0.25, 8, 0.25)),
            "mean_bin_lower_bound": draw(
                st.one_of(st.none(), gen.grid(-300, -100, 0.5))
            ),
            "mean_bin_width": draw(gen.grid(0.5, 16, 0.5)),
        }
    return spec


# more than a byte holds, now and then
IN_BIN = [0, 1, 2, 3, 4, 5] * 5 + [130, 300]


@st.composite
def saved_leaf(draw, minute, unit="MPa", name=None):
    """A count read from saved data, with more than one cycle per entry."""
    n_mean = draw(st.integers(0, 3))
    hist = [
        draw(st.lists(st.sampled_from(IN_BIN), min_size=0, max_size=4))
        for _ in range(n_mean)
    ]
    pair = st.tuples(gen.grid(-20, 20, 0.5), gen.grid(1, 60, 0.5)).map(list)
    data = {
        "range_bin_lower_bound": draw(gen.grid(0, 4, 0.25)),
        "range_bin_width": draw(gen.grid(0.5, 8, 0.5)),
        "mean_bin_lower_bound": draw(gen.grid(-50, 10, 0.5)),
        "mean_bin_width": draw(gen.grid(1, 16, 1)),
        "hist": hist,
        "lg_c": draw(st.lists(pair, min_size=1, max_size=3)),
        "nr_small_cycles": draw(st.integers(0, 50)),
    }
    res = draw(st.one_of(st.none(), gen.zigzag(3, 8)))
    if res is None:
        data["res"] = []
        data["res_sig"] = None
    else:
        data["res"] = [
            [(a + b) / 2, abs(a - b)] for a, b in zip(res, res[1:])
        ]
        data["res_sig"] = res
    return {
        "op": "rf",
        "data": data,
        "t": minute,
        "unit": unit,
        "name": name,
    }


def any_leaf(minute, unit="MPa", name=None):
    return st.one_of(
        leaf(minute, unit, name), leaf(minute, unit, name),
        leaf(minute, unit, name), saved_leaf(minute, unit, name),
        saved_leaf(minute, unit, name),
        direct(9, (1,), (1.0,), minute, unit, name, plain=True),
    )


@st.composite
def counts(draw, depth=2, unit="MPa", start=0, ops=("add", "mul", "solve")):
    """A count derived from others by a random chain of operations."""
    name = draw(st.sampled_from([None, "A", "sensor 1", ""]))

    def build(level, minute):
        kind = draw(st.sampled_from(("leaf",) + tuple(ops) if level else
                                    ("leaf",)))
        if kind == "add":
            parts = []
            for _ in range(draw(st.integers(2, 3))):
                sub, minute = build(level - 1, minute)
                parts.append(sub)
            return {"op": "add", "args": parts}, minute
        if kind == "mul":
            sub, minute = build(level - 1, minute)
            return {
                "op": "mul",
                "arg": sub,
                "f": draw(st.sampled_from([0.5, 2.0, 1.5, 4, 1.0, 3])),
                "left": draw(st.booleans()),
            }, minute
        if kind == "solve":
            sub, minute = build(level - 1, minute)
            return {
                "op": "solve",
                "arg": sub,
                "mode": draw(st.sampled_from(["residuals", "min-max"])),
            }, minute
        spec = draw(any_leaf(minute, unit, name))
        return spec, minute + draw(st.sampled_from([0, 1, 10, 1440]))

    return build(depth, start)[0]


@st.composite
def direct(draw, most=200, times=(1,) * 8 + (17, 40),
           scales=(1.0, 1.0, 1.0, 2.0**-20, 2.0**20), minute=None,
           unit="MPa", name=None, plain=False):
    """A count made of given entries: whole numbers as such, very small and
    very large stresses, many entries, up to ``most`` cycles in one. Plain
    ones have floats only and no other parts of a cycle than halves."""
    ints = not plain and draw(st.booleans())
    if ints:
        row = st.tuples(st.integers(1, 200), st.integers(-100, 100),
                        st.integers(1, 9)).map(list)
    else:
        row = st.tuples(
            gen.grid(0.25, 200, 0.25), gen.grid(-100, 100, 0.25),
            st.one_of(st.sampled_from([0.5, 0.5, 1.0, 2.0, 1.5, 3.5]),
                      gen.grid(1, most, 0.5),
                      gen.grid(1, most, 0.5) if plain
                      else gen.floats(1, most)),
        ).map(list)
    return {
        "op": "direct",
        "rows": draw(st.lists(row, min_size=1, max_size=8)),
        "times": draw(st.sampled_from(times)),
        "type": draw(st.sampled_from(["int64", "int32"])) if ints
        else "float64",
        "scale": 1 if ints else draw(st.sampled_from(scales)),
        "t": draw(st.integers(0, 5000)) if minute is None else minute,
        "unit": unit,
        "name": name,
    }


def rows_given(spec):
    """Entries of a count made of given ones, each time a bit larger."""
    return [[(r + k) * spec["scale"], (m - k) * spec["scale"], n]
            for k in range(spec["times"]) for r, m, n in spec["rows"]]


# ------------------------------------------------------------------ build
def model_saved(data):
    """Entries (range, mean, count) described by saved data."""
    rows = []
    with_mean = "mean_bin_width" in data
    for i, line in enumerate(data.get("hist", [])):
        entries = line if with_mean else [line]
        for k, num in enumerate(entries):
            kk = k if with_mean else i
            if num == 0:
                continue
            ran = data["range_bin_lower_bound"] + data["range_bin_width"] * (
                kk + 0.5
            )
            mea = (
                data["mean_bin_lower_bound"]
                + data["mean_bin_width"] * (i + 0.5)
                if with_mean
                else 0.0
            )
            rows.append((ran, mea, float(num)))
    for key, num in (("lg_c", 1.0), ("res", 0.5)):
        for entry in data.get(key, []):
            rows.append(
                (float(entry[1]), float(entry[0]), num)
                if with_mean
                else (float(entry), 0.0, num)
            )
    return rows


def make(spec):
    """The count under test and its model."""
    import copy

    op = spec["op"]
    if op == "direct":
        rows = rows_given(spec)
        ran, mea, cnt = (np.array(v, spec["type"]) for v in zip(*rows))
        cc = CycleCount(count_cycle=cnt, stress_range=ran, mean_stress=mea,
                        timestamp=stamp(spec["t"]), unit=spec["unit"],
                        name=spec["name"])
        rows = [tuple(map(float, r)) for r in rows]
        return cc, refc.Count(
            rows=rows, res=[], minmax=[], times=[stamp(spec["t"])],
            unit=spec["unit"], name=spec["name"],
            mlb=number(cc.mean_bin_lower_bound, "mean bin lower bound"))
    if op == "ts":
        kwargs = dict(spec.get("bins", {}))
        if spec["unit"] != "MPa":
            kwargs["unit"] = spec["unit"]
        if spec["name"] is not None:
            kwargs["name"] = spec["name"]
        cc = CycleCount.from_timeseries(
            np.array(spec["x"], float), timestamp=stamp(spec["t"]), **kwargs
        )
        bins = spec.get("bins", {})
        model = refc.from_signal(
            spec["x"],
            stamp(spec["t"]),
            unit=spec["unit"],
            name=spec["name"],
            rlb=bins.get("range_bin_lower_bound", 0.2),
            rw=bins.get("range_bin_width", 0.05),
            mw=bins.get("mean_bin_width", 10),
        )
        mlb = bins.get("mean_bin_lower_bound")
        # the derived bound is read from the count; P10 decides it
        model.mlb = (
            number(cc.mean_bin_lower_bound, "mean bin lower bound")
            if mlb is None
            else mlb
        )
        return cc, model
    if op == "rf":
        data = copy.deepcopy(spec["data"])
        cc = CycleCount.from_rainflow(
            data,
            timestamp=stamp(spec["t"]),
            name=spec["name"],
            unit=spec["unit"],
        )
        data = spec["data"]
        res = data.get("res_sig")
        model = refc.Count(
            rows=model_saved(data),
            res=res,
            minmax=[min(res), max(res)] if res else [],
            times=[stamp(spec["t"])],
            unit=spec["unit"],
            name=spec["name"],
            small=data["nr_small_cycles"],
            rlb=data["range_bin_lower_bound"],
            rw=data["range_bin_width"],
            mlb=data["mean_bin_lower_bound"],
            mw=data["mean_bin_width"],
        )
        return cc, model
    if op == "add":
        cc, model = make(spec["args"][0])
        for sub in spec["args"][1:]:
            other, omodel = make(sub)
            cc, model = cc + other, model.add(omodel)
        return cc, model
    cc, model = make(spec["arg"])
    if op == "mul":
        f = spec["f"]
        new = model.mul(f)
        new.name = str(model.name) + ", SCF=" + str(float(f))
        return (f * cc if spec["left"] else cc * f), new
    if op == "solve":
        return cc.solve_lffd(spec["mode"]), model.solve(spec["mode"])
    raise ValueError(op)


# --------------------------------------------------------------- compare
def rows_of(cc):
    ran = floats(cc.stress_range, "stress range")
    mea = floats(cc.mean_stress, "mean stress")
    cnt = floats(cc.count_cycle, "count")
    check(
        len(ran) == len(mea) == len(cnt),
        f"{len(ran)} ranges, {len(mea)} means and {len(cnt)} counts",
    )
    return list(zip(ran.tolist(), mea.tolist(), cnt.tolist()))


def seq_of(values):
    if values is None:
        return []
    return floats(values, "sequence").tolist()


def times_of(cc):
    with observing("time sequence"):
        return [t for t in np.atleast_1d(cc.time_sequence).tolist()]


def observe(cc):
    """The present content of a count, as a model."""
    return refc.Count(
        rows=rows_of(cc),
        res=None
        if cc.residuals_sequence is None
        else seq_of(cc.residuals_sequence),
        minmax=seq_of(cc.min_max_sequence),
        times=times_of(cc),
        unit=cc.unit,
        name=cc.name,
        small=number(cc.nr_small_cycles, "small cycles"),
        solved=bool(cc.lffd_solved),
        corrected=cc.mean_stress_corrected != "No",
        scf=number(cc.stress_concentration_factor, "SCF"),
        rlb=number(cc.range_bin_lower_bound, "range bin lower bound"),
        rw=number(cc.range_bin_width, "range bin width"),
        mlb=number(cc.mean_bin_lower_bound, "mean bin lower bound"),
        mw=number(cc.mean_bin_width, "mean bin width"),
    )


def compare_rows(cc, model, what, rtol=1e-9):
    same_cycles(rows_of(cc), model.rows, f"{what}: cycles", rtol)


def compare_sequences(cc, model, what, minmax=True, rtol=1e-9):
    scale = max([abs(v) for v in model.res or [0]] + [1e-300])
    same(
        seq_of(cc.residuals_sequence),
        model.res or [],
        f"{what}: residual sequence",
        rtol,
        rtol * scale,
    )
    if minmax:
        same(
            seq_of(cc.min_max_sequence),
            model.minmax,
            f"{what}: minima and maxima",
            rtol,
            rtol * scale,
        )


def compare_bins(cc, model, what):
    for attr, want in (
        ("range_bin_lower_bound", model.rlb),
        ("range_bin_width", model.rw),
        ("mean_bin_lower_bound", model.mlb),
        ("mean_bin_width", model.mw),
    ):
        same_number(getattr(cc, attr), want, f"{what}: {attr}", 1e-9, 1e-12)


def compare_state(cc, model, what):
    check(
        bool(cc.lffd_solved) == model.solved,
        f"{what}: resolved state is {cc.lffd_solved!r}",
    )
    check(
        (cc.mean_stress_corrected != "No") == model.corrected,
        f"{what}: correction state is {cc.mean_stress_corrected!r}",
    )


def compare_times(cc, model, what):
    want = model.times
    got = times_of(cc)
    check(got == want, f"{what}: timestamps {got} instead of {want}")
    check(
        cc.timestamp == want[0],
        f"{what}: timestamp {cc.timestamp} instead of {want[0]}",
    )


def compare_labels(cc, model, what):
    check(cc.unit == model.unit, f"{what}: unit {cc.unit!r}")
    check(cc.name == model.name, f"{what}: name {cc.name!r}")
    same_number(cc.nr_small_cycles, model.small, f"{what}: small cycles")


def compare_all(cc, model, what, minmax=True):
    compare_rows(cc, model, what)
    compare_sequences(cc, model, what, minmax)
    compare_bins(cc, model, what)
    compare_state(cc, model, what)
    compare_times(cc, model, what)
    compare_labels(cc, model, what)
    same_number(
        cc.stress_concentration_factor, model.scf, f"{what}: SCF"
    )


INDEXES = ["plain", "reversed", "offset", "text", "repeated", "times"]


def frame_of(cc, index="plain"):
    """The dataframe of a count with its rows labelled in another way."""
    df = cc.to_df()
    n = len(df)
    if index != "plain":
        df.index = {
            "reversed": list(range(n))[::-1],
            "offset": [k + 5 for k in range(n)],
            "text": [f"c{k}" for k in range(n)],
            "repeated": [k // 2 for k in range(n)],
            "times": [stamp(k) for k in range(n)],
        }[index]
    return df


def labels_of(spec):
    """Operations in a spec."""
    out = {spec["op"]}
    for sub in spec.get("args", []) + (
        [spec["arg"]] if "arg" in spec else []
    ):
        out |= labels_of(sub)
    return out
