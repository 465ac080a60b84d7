"""P22: histograms and count plots."""

from __future__ import annotations

import math
import warnings
from collections import Counter

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from py_fatigue.cycle_count import histogram as ht
from py_fatigue.cycle_count.utils import plot_aggregated_residuals

from pbt import counts, curves, gen, turns
from pbt.core import check, close, floats, observing, rejects, same, subtest
from pbt.match import assign
from pbt.props.p25 import any_count, build
from pbt.ref import rainflow as ref

P = "P22"


# ------------------------------------------------------- bin specifications
def edges():
    """Increasing edges, evenly spaced or not."""
    return st.tuples(
        gen.grid(-8, 1, 0.5),
        st.lists(st.sampled_from([0.25, 0.5, 1.0, 1.5, 4.0]), min_size=1,
                 max_size=8),
    ).map(lambda t: [t[0] + sum(t[1][:i]) for i in range(len(t[1]) + 1)])


number = st.integers(1, 12)


def bins():
    return st.one_of(
        number,
        st.tuples(number, number).map(list),
        edges().filter(lambda e: len(e) != 2),  # two numbers are two sizes
        st.tuples(edges(), edges()).map(list),
        st.tuples(number, edges()).map(list),
        st.tuples(edges(), number).map(list),
    )


def sides(spec):
    """The specification of the bins of each axis."""
    if isinstance(spec, int):
        return [spec, spec]
    if len(spec) == 2:
        return list(spec)
    return [spec, spec]


def kind(spec):
    return "/".join("number" if isinstance(s, int) else "edges"
                    for s in sides(spec))


def given(spec):
    """In the forms users write."""
    if isinstance(spec, int):
        return spec
    if len(spec) == 2 and not all(isinstance(s, int) for s in spec):
        return [s if isinstance(s, int) else np.array(s) for s in spec]
    return spec


def spans():
    return st.tuples(gen.grid(-8, 1, 0.5), gen.grid(0.5, 16, 0.5)).map(
        lambda t: [t[0], t[0] + t[1]])


points = st.one_of(
    st.lists(st.tuples(gen.grid(-6, 6, 0.5), gen.grid(-6, 6, 0.5)).map(list),
             min_size=1, max_size=30),
    st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(
        lambda t: [float(t[0]), float(t[1])]), min_size=1, max_size=40),
    st.lists(st.tuples(gen.floats(-9, 9), gen.floats(-9, 9)).map(list),
             min_size=1, max_size=20),
)


crowds = st.one_of(
    st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(
        lambda t: [float(t[0]), float(t[1])]), min_size=5, max_size=40),
    st.lists(st.tuples(gen.floats(-9, 9), gen.floats(-9, 9)).map(list),
             min_size=5, max_size=40),
)


@st.composite
def cases(draw, pts=points):
    pts = draw(pts)
    weights = draw(st.one_of(
        st.none(),
        st.lists(gen.grid(0.25, 8, 0.25), min_size=len(pts),
                 max_size=len(pts))))
    # many points
    times = draw(st.sampled_from([1] * 14 + [9, 60]))
    pts = pts * times
    weights = weights and weights * times
    return {
        "pts": pts,
        "bins": draw(bins()),
        "range": draw(st.one_of(st.none(), st.tuples(spans(), spans()).map(
            list))),
        "weights": weights,
        "layout": draw(st.sampled_from(gen.LAYOUTS)),
        "normed": draw(st.booleans()),
        "values": draw(st.integers(0, 2**31)),
    }


def ref_edges(spec, span, values):
    if not isinstance(spec, int):
        return spec
    lo, hi = span if span else (min(values), max(values))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return [lo + (hi - lo) * i / spec for i in range(spec + 1)]


def bin_of(edg, value, exact):
    """Index of the bin, None outside, and whether rounding decides."""
    scale = 1e-12 * max(abs(edg[0]), abs(edg[-1]), 1)
    if any(0 < abs(value - e) < scale for e in edg):
        return None, True
    if not exact and value in edg[1:-1]:
        return None, True
    if value < edg[0] or value > edg[-1]:
        return None, False
    if value == edg[-1]:
        return len(edg) - 2, False
    return max(i for i, e in enumerate(edg) if e <= value), False


def ref_histogram(case, edg, exact=True):
    """The table of the bins and the bin of each point.

    Edges may be those of the code under test (exact) or computed here.
    """
    table = [[0.0] * (len(edg[1]) - 1) for _ in range(len(edg[0]) - 1)]
    where = []
    weights = case["weights"] or [1.0] * len(case["pts"])
    for pt, w in zip(case["pts"], weights):
        i, doubt = bin_of(edg[0], pt[0], exact)
        j, doubt_too = bin_of(edg[1], pt[1], exact)
        if doubt or doubt_too:
            return None, None
        if i is None or j is None:
            where.append(None)
            continue
        where.append((i, j))
        table[i][j] += w
    if case["normed"]:
        total = math.fsum(v for row in table for v in row)
        if total == 0:
            return None, None
        table = [
            [v / total / ((edg[0][i + 1] - edg[0][i]) *
                          (edg[1][j + 1] - edg[1][j]))
             for j, v in enumerate(row)] for i, row in enumerate(table)]
    return table, where


def arguments(case):
    layout = case.get("layout", "array")
    x = gen.laid_out([p[0] for p in case["pts"]], layout)
    y = gen.laid_out([p[1] for p in case["pts"]], layout)
    kwargs = {"bins": given(case["bins"])}
    if case["normed"] or len(x) % 2:
        kwargs["normed"] = case["normed"]
    if case["range"] is not None:
        kwargs["bin_range"] = case["range"]
    if case["weights"] is not None:
        kwargs["weights"] = np.array(case["weights"])
    return x, y, kwargs


def histogram(case):
    """The histogram under test, after checking its bins."""
    x, y, kwargs = arguments(case)
    with observing("histogram"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        hist, edg = ht.make_histogram(x, y, **kwargs)
        check(len(edg) == 2, f"edges of {len(edg)} axes")
    edg = [floats(e, "edges") for e in edg]
    spec = sides(case["bins"])
    span = case["range"] or [None, None]
    for axis in range(2):
        want = ref_edges(spec[axis], span[axis],
                         [p[axis] for p in case["pts"]])
        same(edg[axis], want, f"edges of axis {axis}", 1e-12, 1e-12)
    return hist, edg


def labels(case, where):
    out = {kind(case["bins"])}
    if any(w is None for w in where):
        out.add("outside")
    if case["weights"]:
        out.add("weights")
    if case["normed"]:
        out.add("density")
    if case["range"]:
        out.add("range")
    return out


@subtest(P, "histogram", cases, "a point in a bin", quick=1500)
def of_points(case):
    hist, edg = histogram(case)
    want, where = ref_histogram(case, edg)
    if want is None:
        return ()
    got = np.asarray(hist, float)
    check(got.shape == (len(want), len(want[0])),
          f"histogram of shape {got.shape}")
    for i, row in enumerate(want):
        same(got[i], row, f"row {i} of the histogram", 1e-9, 1e-12)
    if all(w is None for w in where):
        return ()
    return labels(case, where)


@subtest(P, "values of points", cases, "a point in a bin", quick=1200)
def mapped(case):
    _, edg = histogram(case)
    _, where = ref_histogram(dict(case, normed=False), edg)
    if where is None:
        return ()
    x, y, _ = arguments(case)
    shape = (len(edg[0]) - 1, len(edg[1]) - 1)
    table = np.random.default_rng(case["values"]).permutation(
        shape[0] * shape[1]).reshape(shape).astype(float)
    with observing("values of points"):
        got = np.asarray(
            ht.map_hist(x, y, table, (np.array(edg[0]), np.array(edg[1]))),
            float)
    check(got.shape == x.shape, f"{got.shape} values of {x.shape} points")
    for p, g, w in zip(case["pts"], got.tolist(), where):
        if w is None:
            check(math.isnan(g), f"value {g} at {p} outside of the bins")
        else:
            check(g == table[w], f"value {g} at {p}, {table[w]} in its bin")
    if all(w is None for w in where):
        return ()
    return labels(case, where)


@subtest(
    P,
    "different lengths",
    lambda: st.fixed_dictionaries(
        {"n": st.integers(0, 9), "m": st.integers(0, 9)}),
    "every case",
    quick=60,
)
def lengths(case):
    n, m = case["n"], case["m"]
    if n == m:
        return ()
    rejects(f"histogram of {n} and {m} points", (ValueError,),
            ht.make_histogram, np.arange(float(n)), np.arange(float(m)))
    return {"fewer" if n < m else "more"}


# ---------------------------------------------------------------- densities
def drawn(coll, what):
    """The points a scatter shows, with their values, in drawing order."""
    with observing(what):
        off = np.ma.asarray(coll.get_offsets())
        val = np.ma.asarray(coll.get_array()).filled(np.nan)
        hidden = np.ma.getmaskarray(off).any(axis=1)
        xy = np.asarray(off.data, float)
        sel = coll.get_array()
    check(sel is not None and len(val) == len(xy),
          f"{what}: {len(val)} colours of {len(xy)} points")
    return [(float(p[0]), float(p[1]), float(v))
            for p, v, h in zip(xy, val, hidden) if not h]


FUNCS = {"none": None, "log10": np.log10, "negative": np.negative,
         "double": lambda v: 2 * v}


@st.composite
def density_cases(draw):
    case = draw(cases(crowds))
    if draw(st.booleans()):
        # bins among the points, so that their values differ
        some = st.integers(2, 9)
        case["bins"] = draw(st.one_of(some, st.tuples(some, some).map(list)))
        case["range"] = draw(st.sampled_from(
            [None, None, [[-1.0, 3.0], [0.5, 4.0]]]))
    case["mode"] = draw(st.sampled_from(["mountain", "valley", "default"]))
    case["func"] = draw(st.sampled_from(sorted(FUNCS)))
    case["on"] = draw(st.sampled_from(["nothing", "figure", "axes", "both"]))
    return case


def target(on):
    """Where to draw: keyword arguments and the axes expected."""
    if on == "nothing":
        return {}, None
    fig, axs = plt.subplots(1, 2)
    if on == "figure":
        return {"fig": fig}, axs[1]
    return ({"ax": axs[0]} if on == "axes" else {"fig": fig, "ax": axs[0]},
            axs[0])


def ordered(values, mode, what):
    vals = [v for v in values if not math.isnan(v)]
    if mode == "valley":
        vals = vals[::-1]
    check(all(a <= b for a, b in zip(vals, vals[1:])),
          f"{what}: drawn in the order {vals[:9]}")


def near(g, w):
    return all(close(a, b, 1e-9, 1e-9) for a, b in zip(g, w))


def same_points(got, want, what):
    """Points in any order; (x, y, value) compared within rounding."""
    check(len(got) == len(want), f"{what}: {len(got)} points drawn instead "
          f"of {len(want)}")

    pairs = list(zip(sorted(got), sorted(want)))
    if all(near(g, w) for g, w in pairs):
        return
    options = [[j for j, w in enumerate(want) if near(g, w)] for g in got]
    for g, opts in zip(got, options):
        check(opts, f"{what}: {g} drawn, there is no such point")
    check(None not in assign(options, {j: 1 for j in range(len(want))}),
          f"{what}: points {sorted(got)[:6]} drawn, expected "
          f"{sorted(want)[:6]}")


@subtest(P, "density plots", density_cases, "two values to order", quick=800,
         weight=4)
def density(case):
    hist, edg = histogram(case)
    want, where = ref_histogram(case, edg)
    if want is None:
        return ()
    x, y, kwargs = arguments(case)
    if case["mode"] != "default":
        kwargs["mode"] = case["mode"]
    func = FUNCS[case["func"]]
    if func is not None:
        kwargs["dens_func"] = func
    more, axes = target(case["on"])
    try:
        with observing("density plot"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fig, ax, im = ht.xy_hist2d(x, y, **kwargs, **more)
        check(axes is None or ax is axes, "drawn on other axes")
        check(ax.figure is fig, "the axes are not in the figure")
        check(im in ax.collections, "the points are not on the axes")
        got = drawn(im, "density plot")
    finally:
        plt.close("all")
    points_in = []
    for p, w in zip(case["pts"], where):
        if w is None:
            continue
        value = want[w[0]][w[1]]
        if func is not None:
            value = float(func(np.float64(value)))
        points_in.append((p[0], p[1], value))
    got_in = [g for g in got if not math.isnan(g[2])]
    same_points(got_in, points_in, "density plot")
    mode = "valley" if case["mode"] == "valley" else "mountain"
    ordered([g[2] for g in got], mode, "density plot")
    if len({g[2] for g in got_in}) < 2:
        return ()
    return labels(case, where) | {case["mode"], case["func"], case["on"]}


@subtest(
    P,
    "unknown requests",
    lambda: st.fixed_dictionaries(
        {"pts": points,
         "cc": counts.counts(depth=1),
         "mode": st.sampled_from(["hill", "", "Mountain", "mountains"]),
         "type": st.sampled_from(["min", "range-mean", "", "counts", None])}),
    "every case",
    quick=60,
)
def unknown(case):
    x = np.array([p[0] for p in case["pts"]])
    try:
        rejects(f"mode {case['mode']!r}", (ValueError,), ht.xy_hist2d, x, x,
                mode=case["mode"])
        cc, _ = counts.make(case["cc"])
        rejects(f"mode {case['mode']!r} of a count", (ValueError,),
                cc.plot_histogram, mode=case["mode"])
        rejects(f"plot type {case['type']!r}", (ValueError, TypeError),
                cc.plot_histogram, plot_type=case["type"])
    finally:
        plt.close("all")
    return {case["mode"], str(case["type"])}


# -------------------------------------------------------------- count plots
TYPES = ["min-max", "mean-range", "counts-range", "counts-range-cumsum",
         "counts-range-2D", "default"]


def cuts():
    """Edges of bins, as parts of the extent of the data."""
    return st.lists(
        st.sampled_from([-0.25, 0.0, 0.1, 0.3, 0.5, 0.6, 0.9, 1.0, 1.2]),
        min_size=3, max_size=7, unique=True,
    ).map(lambda parts: {"cuts": sorted(parts)})


def within(values, part):
    lo, hi = min(values), max(values)
    if lo == hi:
        lo, hi = lo - 1.0, hi + 1.0
    return lo + part * (hi - lo)


@st.composite
def plot_cases(draw):
    return {
        "count": draw(any_count()),
        "type": draw(st.sampled_from(TYPES)),
        "mode": draw(st.sampled_from(["mountain", "valley", "default"])),
        "bins": draw(st.one_of(st.none(), number,
                               st.tuples(number, number).map(list),
                               cuts(), cuts())),
        # parts of the extent of the data
        "span": draw(st.one_of(
            st.none(), st.none(),
            st.tuples(gen.grid(-0.5, 0.5, 0.125),
                      gen.grid(0.625, 1.5, 0.125)).map(list))),
        "weight": draw(st.sampled_from([None, None, None, 2.5])),
        "func": draw(st.sampled_from(["none", "none"] + sorted(FUNCS))),
        "on": draw(st.sampled_from(["nothing", "figure", "axes", "both"])),
        "normed": draw(st.booleans()),
    }


def by_range(got, rows, case, what):
    """Cycles, possibly cumulated, against ranges in decreasing order."""
    check(len(got) == len(rows), f"{what}: {len(got)} points drawn instead "
          f"of {len(rows)}")
    ranges = [g[1] for g in got]
    check(all(a >= b for a, b in zip(ranges, ranges[1:])),
          f"{what}: ranges drawn in the order {ranges[:9]}")
    if case["type"] == "counts-range-cumsum":
        total, each = 0.0, []
        for x, r, c in got:
            total += c
            check(close(x, total, 1e-9, 1e-9),
                  f"{what}: {x} cycles from {r} on, expected {total}")
            each.append((c, r))
    else:
        for x, r, c in got:
            check(x == c, f"{what}: {x} cycles of range {r} coloured as {c}")
        each = [(g[0], g[1]) for g in got]
    check(Counter(each) == Counter((r[2], r[0]) for r in rows),
          f"{what}: cycles and ranges {each[:6]} are not those of the count")


@subtest(P, "count plots", plot_cases, "two cycles", quick=500, weight=4)
def of_counts(case):
    cc = build(case["count"])
    rows = counts.rows_of(cc)
    kwargs, want_ax = target(case["on"])
    if case["type"] != "default":
        kwargs["plot_type"] = case["type"]
    if case["mode"] != "default":
        kwargs["mode"] = case["mode"]
    if case["normed"]:
        kwargs["normed"] = True
    kind_ = "min-max" if case["type"] == "default" else case["type"]
    each = []
    for ran, mean, num in rows:
        times = int(num) + (1 if num % 1 == 0.5 else 0)
        at = (mean, ran)
        if kind_ == "min-max":
            at = (mean - ran / 2, mean + ran / 2)
        each += [list(at)] * times
    spec, span = sides(50), [None, None]
    if isinstance(case["bins"], dict):
        spec = [[within([p[i] for p in each], c)
                 for c in case["bins"]["cuts"]] for i in range(2)]
        kwargs["bins"] = [np.array(s) for s in spec]
    elif case["bins"] is not None:
        kwargs["bins"] = case["bins"]
        spec = sides(case["bins"])
    if case["span"] is not None:
        span = [[within([p[i] for p in each], c) for c in case["span"]]
                for i in range(2)]
        kwargs["bin_range"] = span
    weights = None
    if case["weight"] is not None:
        weights = [case["weight"]] * len(each)
        kwargs["weights"] = np.array(weights)
    func = FUNCS[case["func"]]
    if func is not None:
        kwargs["dens_func"] = func
    try:
        with observing("plot"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fig, ax = cc.plot_histogram(**kwargs)
        check(want_ax is None or ax is want_ax, "drawn on other axes")
        check(ax.figure is fig, "the axes are not in the figure")
        check(len(ax.collections) == 1, f"{len(ax.collections)} point sets")
        got = drawn(ax.collections[0], kind_)
        names = [ax.get_xlabel(), ax.get_ylabel()]
    finally:
        plt.close("all")
    words = {"min-max": ("min", "max"), "mean-range": ("mean", "range")}.get(
        kind_, ("cycles", "range"))
    for name, word in zip(names, words):
        check(word in name.lower(), f"{kind_}: axis called {name!r}")
        check(word == "cycles" or cc.unit in name,
              f"{kind_}: axis called {name!r} of a count in {cc.unit}")
    out = {kind_, case["mode"], case["on"]}
    if kind_.startswith("counts"):
        by_range(got, rows, case, kind_)
        return out if len(rows) > 1 else ()
    hist_case = {"pts": each, "weights": weights, "normed": case["normed"]}
    edg = [ref_edges(spec[i], span[i], [p[i] for p in each])
           for i in range(2)]
    ordered([g[2] for g in got], case["mode"], kind_)
    want, where = ref_histogram(
        hist_case, edg, span[0] is None
        and all(n in (1, 2, 4, 8) for n in spec))
    if want is None:
        return out if len(rows) > 1 else ()
    inside = []
    for p, w in zip(each, where):
        if w is None:
            continue
        value = want[w[0]][w[1]]
        if func is not None:
            value = float(func(np.float64(value)))
        inside.append((p[0], p[1], value))
    same_points([g for g in got if not math.isnan(g[2])], inside, kind_)
    if len(inside) == len(each):
        same_points([g[:2] for g in got], [tuple(p) for p in each], kind_)
    else:
        out.add("points outside of the bins")
    if case["normed"]:
        out.add("density")
    if func is not None:
        out.add("function of the values")
    out.add("edges" if isinstance(case["bins"], dict) else "numbers")
    return out if len(rows) > 1 else ()


# ---------------------------------------------------------------- residuals
def lines_of(ax, what):
    with observing(what):
        return [(np.asarray(ln.get_xdata(), float).tolist(),
                 np.asarray(ln.get_ydata(), float).tolist())
                for ln in ax.lines]


@subtest(
    P,
    "residuals",
    lambda: st.fixed_dictionaries(
        {"cc": counts.counts(depth=2),
         "name": st.sampled_from(["plot_residuals_sequence",
                                  "plot_half_cycles_sequence"]),
         "on": st.sampled_from(["nothing", "figure", "axes", "both"])}),
    "a sequence that varies",
    quick=250,
    weight=3,
)
def residuals(case):
    cc, _ = counts.make(case["cc"])
    seq = counts.seq_of(cc.residuals_sequence)
    if len(set(seq)) < 2:
        return ()
    kwargs, want_ax = target(case["on"])
    try:
        with observing("plot"):
            fig, ax = getattr(cc, case["name"])(**kwargs)
        check(want_ax is None or ax is want_ax, "drawn on other axes")
        check(ax.figure is fig, "the axes are not in the figure")
        lines = lines_of(ax, "residuals")
    finally:
        plt.close("all")
    want = [(list(map(float, range(len(seq)))), list(seq))]
    idx = ref.rainflow(seq)[1]
    want.append((list(map(float, idx)), [seq[i] for i in idx]))
    for x, y in want:
        check((x, y) in lines, f"no line through {y[:9]} at {x[:9]}")
    return {case["name"], case["on"]} | counts.labels_of(case["cc"])


@st.composite
def saved_residuals(draw):
    """The dictionary that aggregating with saved residuals makes."""
    params = draw(st.lists(st.sampled_from(["CC_a", "CC_b", "CC_c"]),
                           min_size=1, max_size=3, unique=True))
    periods = draw(st.lists(st.sampled_from(
        ["Jan 2020", "Feb 2020", "Mar 2020", "Apr 2020", "all"]),
        min_size=1, max_size=4, unique=True))
    return {
        "data": [[p, [[c, draw(st.lists(gen.grid(-50, 50, 0.25), max_size=9))]
                      for c in params]] for p in periods],
        "which": draw(st.sampled_from(params)),
        "minor": draw(st.booleans()),
    }


@subtest(P, "aggregated residuals", saved_residuals, "two periods", quick=120,
         weight=2)
def aggregated(case):
    data = {p: {c: {"idx": list(range(len(r))), "res": list(r)}
                for c, r in cols} for p, cols in case["data"]}
    with observing("plot"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fig, ax = plot_aggregated_residuals(
                data, case["which"], minor_grid=case["minor"])
            check(ax.figure is fig, "the axes are not in the figure")
            got = [(ln.get_label(), np.asarray(ln.get_ydata(), float).tolist(),
                    np.asarray(ln.get_xdata(), float).tolist())
                   for ln in ax.lines]
        finally:
            plt.close("all")
    want = [(p, list(map(float, data[p][case["which"]]["res"])),
             list(map(float, data[p][case["which"]]["idx"]))) for p in data]
    check(sorted(got) == sorted(want), f"lines {got[:3]}, expected {want[:3]}")
    return {"periods"} if len(want) > 1 else ()


# ------------------------------------------------------------------- damage
@subtest(
    P,
    "damage plots",
    lambda: st.fixed_dictionaries(
        {"count": any_count(),
         "curve": curves.sn(branches=(1, 3)),
         "func": st.sampled_from(sorted(FUNCS)),
         "on": st.sampled_from(["nothing", "figure", "axes", "both"])}),
    "two cycles",
    quick=200,
    weight=4,
)
def damages(case):
    cc = build(case["count"])
    frame = cc.to_df()
    curve = curves.make_sn(case["curve"])
    func = FUNCS[case["func"]]
    kwargs, want_ax = target(case["on"])
    if func is not None:
        kwargs["dens_func"] = func
    try:
        with observing("plot"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            frame.miner.damage(curve)
            damage = floats(frame["pm_damage"], "damage").tolist()
            fig, ax = frame.miner.plot_histogram(**kwargs)
        check(want_ax is None or ax is want_ax, "drawn on other axes")
        check(ax.figure is fig, "the axes are not in the figure")
        check(len(ax.collections) == 1, f"{len(ax.collections)} point sets")
        got = drawn(ax.collections[0], "damage")
    finally:
        plt.close("all")
    want = []
    for row, dam in zip(counts.rows_of(cc), damage):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            val = float(func(np.float64(dam))) if func is not None else dam
        want.append((row[2], row[0], val))
    # cycles without a finite value may be drawn or not
    got = sorted(g for g in got if math.isfinite(g[2]))
    want = sorted(w for w in want if math.isfinite(w[2]))
    check(len(got) == len(want), f"{len(got)} of {len(want)} cycles drawn")
    for g, w in zip(got, want):
        check(g[:2] == w[:2] and close(g[2], w[2], 1e-12),
              f"cycle drawn at {g[:2]} with the colour of {g[2]}, expected "
              f"{w}")
    return {case["func"], case["on"]} if len(want) > 1 else ()


# ----------------------------------------------------------- one after another
turns.in_turn(P, "histogram", {
    "bins": turns.part("bins"),
    "range": turns.part("range"),
    "density": turns.changed("normed", by=lambda v: not v),
    "no weights": turns.changed("weights", by=lambda v: None),
    "backwards": turns.changed("pts", by=lambda pts: [
        [p[1], p[0]] for p in pts]),
}, quick=600)
