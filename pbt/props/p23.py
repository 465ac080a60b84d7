"""P23: drawn curves."""

from __future__ import annotations

import math

import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from pbt import curves, gen, turns
from pbt.core import check, close, fail, floats, observing, rejects, same
from pbt.core import subtest

P = "P23"


def dataset(min_size=0):
    return st.lists(
        st.tuples(gen.grid(1, 1000, 0.5), gen.grid(1, 1000, 0.5)).map(list),
        min_size=min_size,
        max_size=6,
    )


def options():
    return st.fixed_dictionaries(
        {
            "data": st.one_of(st.none(), dataset(1), dataset(1)),
            "array": st.booleans(),
            "on": st.sampled_from(["nothing", "figure", "both", "axes"]),
            "more": st.booleans(),
            "label": st.sampled_from([None, "tests", "a b"]),
            "color": st.sampled_from([None, "#FF0000", "blue"]),
            "look": st.one_of(st.none(), st.fixed_dictionaries({
                "norm": st.sampled_from(["N", "DNV-C203"]),
                "environment": st.sampled_from(["Air", "Free corrosion"]),
                "curve": st.sampled_from(["D", "B1"]),
                "color": st.sampled_from(["#123456", "green"]),
            })),
        }
    )


def alike(got, want):
    return mcolors.to_rgba(got) == mcolors.to_rgba(want)


def look(opts):
    return opts["look"] or {}


def line(obj, what):
    with observing(what):
        x = np.asarray(obj.get_xdata(), float)
        y = np.asarray(obj.get_ydata(), float)
    check(x.shape == y.shape, f"{what}: {x.shape} abscissae, {y.shape} "
          "ordinates")
    return x, y


def draw(curve, opts):
    """The axes drawn on and the lines added to them."""
    kwargs, fig, ax = {}, None, None
    if opts["data"] is not None:
        x = [v[0] for v in opts["data"]]
        y = [v[1] for v in opts["data"]]
        if opts["array"]:
            x, y = np.array(x), np.array(y)
        args = [x, y]
        kwargs["dataset_name"] = opts["label"]
        if opts["color"]:
            kwargs["dataset_color"] = opts["color"]
    else:
        args = []
    if opts["on"] != "nothing":
        if opts["more"]:
            fig, axs = plt.subplots(1, 2)
            ax = axs[0] if opts["on"] != "figure" else axs[1]
        else:
            fig, ax = plt.subplots()
        if opts["on"] in ("figure", "both"):
            kwargs["fig"] = fig
        if opts["on"] in ("axes", "both"):
            kwargs["ax"] = ax
        if opts["more"]:
            plt.figure()  # the current figure is another one
    with observing("plot"):
        got_fig, got_ax = curve.plot(*args, **kwargs)
        if args and opts["more"]:
            half = curve.plot(args[0])[1]
            check(len(half.lines) == 1, "half a dataset is drawn")
    if fig is not None:
        check(got_fig is fig, "drawn on another figure than the one given")
        check(got_ax is ax, "drawn on other axes than the ones given")
    check(got_ax.figure is got_fig, "the axes are not in the figure")
    check(got_ax.get_xscale() == "log", "abscissa is not logarithmic")
    check(got_ax.get_yscale() == "log", "ordinate is not logarithmic")
    lines = list(got_ax.lines)
    check(len(lines) >= 1, "nothing drawn")
    check(lines[0].get_label() == str(curve.name),
          f"curve labelled {lines[0].get_label()!r}, not {curve.name!r}")
    check(alike(lines[0].get_color(), curve.color),
          f"curve drawn in {lines[0].get_color()}, not {curve.color}")
    if opts["data"] is not None:
        check(len(lines) >= 2, "dataset not drawn")
        dx, dy = line(lines[1], "dataset")
        same(dx, [v[0] for v in opts["data"]], "dataset abscissae", 0)
        same(dy, [v[1] for v in opts["data"]], "dataset ordinates", 0)
        if opts["label"]:
            check(lines[1].get_label() == opts["label"],
                  f"dataset labelled {lines[1].get_label()!r}")
        if opts["color"]:
            check(alike(lines[1].get_color(), opts["color"]),
                  f"dataset drawn in {lines[1].get_color()}")
    else:
        check(len(lines) == 1, f"{len(lines)} lines for a curve")
    return got_ax, lines


def ordered(x, what, rtol=1e-9):
    x = floats(x, what)
    check(np.all(np.isfinite(x)), f"{what}: not finite")
    for a, b in zip(x.tolist(), x.tolist()[1:]):
        check(b >= a * (1 - rtol), f"{what}: {b} drawn after {a}")


def contains(x, y, px, py, what, rtol=1e-8):
    for a, b in zip(x.tolist(), y.tolist()):
        if close(a, px, rtol) and close(b, py, rtol):
            return
    fail(f"{what} at ({px}, {py}) is not drawn")


def compare_sn(x, y, spec):
    check(len(x) >= 2, "curve with less than two points")
    ordered(x, "cycles of the drawn curve")
    for n, s in zip(x.tolist(), y.tolist()):
        want = curves.ref_stress(spec, n)
        if not close(s, want, 1e-8):
            fail(f"drawn stress at {n} cycles is {s}, expected {want}")
    for s, n in curves.knees_sn(spec):
        contains(x, y, n, s, "knee")
    if spec["end"]:
        contains(x, y, spec["end"], curves.ref_stress(spec, spec["end"]),
                 "endurance")
        check(max(x) > spec["end"] * 1.5, "nothing drawn after endurance")


def sn_labels(spec, opts):
    return {
        f"{len(spec['m'])} branches",
        "endurance" if spec["end"] else "no endurance",
        "dataset" if opts["data"] is not None else "no dataset",
        "on " + opts["on"],
    }


UNITS = st.sampled_from(["MPa", "ksi", "kN/m²"])


@subtest(
    P,
    "sn curve",
    lambda: st.fixed_dictionaries(
        {"curve": UNITS.flatmap(lambda u: curves.sn(unit=u)),
         "opts": options()}
    ),
    "every case",
    quick=220,
    weight=8,
)
def sn_plot(case):
    spec, opts = case["curve"], case["opts"]
    try:
        ax, lines = draw(curves.make_sn(spec, **look(opts)), opts)
        compare_sn(*line(lines[0], "curve"), spec)
        check(spec["unit"] in ax.get_ylabel(),
              f"ordinate label {ax.get_ylabel()!r} without unit")
    finally:
        plt.close("all")
    return sn_labels(spec, opts)


@subtest(
    P,
    "sn curve plotly",
    lambda: st.fixed_dictionaries(
        {"curve": UNITS.flatmap(lambda u: curves.sn(unit=u)),
         "opts": options()}
    ),
    "every case",
    quick=250,
    weight=4,
)
def sn_plotly(case):
    spec, opts = case["curve"], case["opts"]
    curve = curves.make_sn(spec, **look(opts))
    args, kwargs = [], {}
    if opts["data"] is not None:
        args = [[v[0] for v in opts["data"]], [v[1] for v in opts["data"]]]
        kwargs["dataset_name"] = opts["label"]
        if opts["color"]:
            kwargs["dataset_color"] = opts["color"]
    data, layout = curve.plotly(*args, **kwargs)
    check(len(data) == 1 + bool(args), f"{len(data)} traces")
    if args:
        part = {"cycles": args[0]} if opts["more"] else {
            "stress_range": args[1]}
        check(len(curve.plotly(**part)[0]) == 1, "half a dataset is drawn")
    compare_sn(floats(data[0].x, "cycles"), floats(data[0].y, "stress"), spec)
    check(layout.xaxis.type == "log", "abscissa is not logarithmic")
    check(layout.yaxis.type == "log", "ordinate is not logarithmic")
    check(spec["unit"] in str(layout.yaxis.title.text),
          "ordinate label without unit")
    if args:
        same(data[1].x, args[0], "dataset abscissae", 0)
        same(data[1].y, args[1], "dataset ordinates", 0)
        check(data[1].name == opts["label"], "name of the dataset")
        if opts["color"]:
            check(data[1].line.color == opts["color"], "color of the dataset")
    check(data[0].name == curve.name,
          f"curve named {data[0].name!r}, not {curve.name!r}")
    check(data[0].line.color == curve.color, "color of the curve")
    return sn_labels(spec, opts)


@subtest(
    P,
    "paris curve",
    lambda: st.fixed_dictionaries(
        {
            "curve": st.sampled_from(["MPa √mm", "MPa √m", "ksi √in",
                                      "MPa mm^0.5"])
            .flatmap(lambda u: curves.paris(unit=u,
                                            scales=(0, 0, 0, -5, 3))),
            "opts": options(),
        }
    ),
    "every case",
    quick=250,
    weight=8,
)
def paris_plot(case):
    spec, opts = case["curve"], case["opts"]
    try:
        ax, lines = draw(curves.make_paris(spec, **look(opts)), opts)
        x, y = line(lines[0], "curve")
        check(spec["unit"] in ax.get_xlabel(),
              f"abscissa label {ax.get_xlabel()!r} without unit")
        if "√" in spec["unit"]:
            check(spec["unit"].split("√")[1] in ax.get_ylabel(),
                  f"ordinate label {ax.get_ylabel()!r} without unit")
        else:
            check(ax.get_ylabel(), "no ordinate label")
    finally:
        plt.close("all")
    check(len(x) >= 2, "curve with less than two points")
    ordered(x, "SIF of the drawn curve")
    crit = spec["crit"] or math.inf
    n_off = 0
    for i, (k, r) in enumerate(zip(x.tolist(), y.tolist())):
        check(spec["thr"] * (1 - 1e-9) <= k <= crit * (1 + 1e-9),
              f"point drawn at SIF {k}, outside the limits of the curve")
        want = curves.on_branch(spec, k)
        if close(r, want, 1e-8):
            continue
        # a vertical stroke from the curve at threshold and critical value
        at_thr = i == 0 and spec["thr"] and close(k, spec["thr"], 1e-9)
        at_crit = (i == len(x) - 1 and spec["crit"]
                   and close(k, spec["crit"], 1e-9))
        if at_thr and 0 < r < want or at_crit and r > want:
            n_off += 1
            continue
        fail(f"drawn growth rate at {k} is {r}, expected {want}")
    for k, r in curves.knees_paris(spec):
        contains(x, y, k, r, "knee")
    for key in ("thr", "crit"):
        if spec[key]:
            contains(x, y, spec[key], curves.on_branch(spec, spec[key]), key)
    return {
        f"{len(spec['m'])} branches",
        "threshold" if spec["thr"] else "no threshold",
        "critical" if spec["crit"] else "no critical",
        "dataset" if opts["data"] is not None else "no dataset",
        "on " + opts["on"],
        f"{n_off} strokes",
    }


@subtest(
    P,
    "mismatching dataset",
    lambda: st.fixed_dictionaries(
        {
            "curve": curves.sn(branches=(1, 2)),
            "paris": curves.paris(branches=(1, 2)),
            "data": dataset(1),
            "what": st.sampled_from(["sn", "plotly", "paris"]),
            "first": st.booleans(),
        }
    ),
    "every case",
    quick=120,
    weight=6,
)
def mismatch(case):
    x = [v[0] for v in case["data"]]
    y = [v[1] for v in case["data"]]
    if case["first"]:
        x = x + [5.0]
    else:
        y = y + [5.0]
    curve = (curves.make_paris(case["paris"]) if case["what"] == "paris"
             else curves.make_sn(case["curve"]))
    fn = curve.plotly if case["what"] == "plotly" else curve.plot
    try:
        rejects("dataset with mismatching lengths", ValueError, fn, x, y)
    finally:
        plt.close("all")
    return {case["what"]}


# ----------------------------------------------------------- one after another
for _name in ("sn curve", "sn curve plotly"):
    turns.in_turn(P, _name, turns.of_curve(turns.SN, "curve"), quick=60)
turns.in_turn(P, "paris curve", turns.of_curve(turns.PARIS, "curve"),
              quick=60)
