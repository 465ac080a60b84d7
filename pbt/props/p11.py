"""P11: mean stress corrections."""

from __future__ import annotations

import contextlib
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from py_fatigue.mean_stress import corrections as msc

from pbt import counts, gen, match, turns
from pbt.core import check, close, floats, number, rejects, same_cycles
from pbt.core import same_number, subtest

P = "P11"
BORDER = 1e-9


def dnv(mean, amp, p):
    """Allowed corrected ranges of one cycle."""
    top, low = mean + amp, mean - amp
    scale = abs(mean) + amp
    if low >= 0:
        return [2 * amp]
    if abs(top) <= BORDER * scale:
        # between partly and fully compressive
        return [2 * amp * 0.8] if p == 0.8 else [2 * amp * 0.6, 0.0]
    if top > 0:
        return [2 * amp * (top + p * -low) / (top - low)]
    return [2 * amp * 0.8] if p == 0.8 else [0.0]


def walker(mean, amp, gamma):
    top = mean + amp
    if gamma == 1:
        return [amp]
    if top <= BORDER * (abs(mean) + amp):
        if gamma == 0:
            return [0.0, top]  # not a root of a negative number
        top = max(top, 0.0)
        if top == 0:
            return [0.0]
        return [0.0, top ** (1 - gamma) * amp**gamma]
    return [top ** (1 - gamma) * amp**gamma]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def kind(mean, amp):
    top, low = mean + amp, mean - amp
    if low > 0:
        return "tension"
    if low == 0:
        return "pulsating"
    if top > 0:
        return "through zero"
    return "zero maximum" if top == 0 else "compression"


@st.composite
def cycle(draw):
    amp = draw(st.one_of(gen.grid(0.25, 50, 0.25), gen.floats(1e-3, 500)))
    mean = draw(
        st.one_of(
            gen.grid(-60, 60, 0.25), gen.floats(-600, 600),
            st.sampled_from([-1.0, 1.0, 0.0]).map(lambda f: f * amp),
            gen.floats(-1.01, -0.99).map(lambda f: f * amp),
            gen.floats(0.99, 1.01).map(lambda f: f * amp),
        )
    )
    return [mean, amp]


GAMMAS = [0.5, 0.25, 0.75, 0.4, 1, 0.1, 0.9, 0, 0.0]


def drawn(name, plot, mean, amp, got):
    """One figure with the factors over the load ratios, or the corrected
    ranges over the given ones; or no figure."""
    try:
        figures = [plt.figure(n) for n in plt.get_fignums()]
        check(len(figures) == bool(plot), f"{name}: {len(figures)} figures")
        lines = [list(zip(floats(ln.get_xdata(), "line").tolist(),
                          floats(ln.get_ydata(), "line").tolist()))
                 for f in figures for ax in f.axes for ln in ax.lines]
    finally:
        plt.close("all")
    if not plot:
        return
    if name == "DNV":
        if any(abs(m + a) <= 1e-6 * (abs(m) + a) or a == 0
               for m, a in zip(mean, amp)):
            return
        want = [((m - a) / (m + a), g / (2 * a), 1.0)
                for m, a, g in zip(mean, amp, got)]
    else:
        want = [(2 * a, g, 1.0) for a, g in zip(amp, got)]
    check(len(lines) == 1, f"{name}: {len(lines)} lines")
    same_cycles([p + (1.0,) for p in lines[0]], want, f"points drawn by {name}")
    check(all(p[0] <= q[0] for p, q in zip(lines[0], lines[0][1:])),
          f"{name}: the line goes back and forth")


@subtest(
    P,
    "functions",
    lambda: st.fixed_dictionaries(
        {
            "cycles": st.one_of(
                st.lists(cycle(), min_size=1, max_size=12),
                st.lists(cycle(), min_size=1, max_size=12),
                st.lists(cycle(), min_size=40, max_size=90),
            ),
            "p": st.sampled_from([0.8, 0.6, None]),
            "gamma": st.one_of(st.sampled_from(GAMMAS + [None]),
                               gen.floats(0.01, 0.99)),
            "plot": st.integers(0, 24).map(lambda n: n == 0),
            "layout": st.sampled_from(gen.LAYOUTS),
            "times": st.sampled_from([1] * 18 + [9, 30]),
        }
    ),
    "every case",
    quick=2500,
)
def functions(case):
    cycles = case["cycles"] * (1 if case["plot"] else case["times"])
    mean = [c[0] for c in cycles]
    amp = [c[1] for c in cycles]
    out = set(map(kind, mean, amp)) | {case["layout"]}
    if len(mean) > 99:
        out.add("more than 99")
    p, gamma = case["p"], case["gamma"]
    for name, fn, kwargs, want in (
        ("DNV", msc.dnvgl_mean_stress_correction,
         {} if p is None else {"detail_factor": p},
         lambda m, a: dnv(m, a, p or 0.8)),
        ("Walker", msc.walker_mean_stress_correction,
         {} if gamma is None else {"gamma": gamma},
         lambda m, a: walker(m, a, 0.5 if gamma is None else gamma)),
        ("SWT", msc.swt_mean_stress_correction, {},
         lambda m, a: walker(m, a, 0.5)),
    ):
        if case["plot"]:
            kwargs["plot"] = True
            out.add("plot")
        with quiet():
            got = floats(fn(gen.laid_out(mean, case["layout"]),
                            gen.laid_out(amp, case["layout"]), **kwargs),
                         name)
        check(len(got) == len(mean), f"{name}: {len(got)} values")
        drawn(name, case["plot"], mean, amp, got.tolist())
        for g, m, a in zip(got.tolist(), mean, amp):
            allowed = want(m, a)
            check(any(close(g, w, 1e-9, 1e-7 * a * BORDER)
                      for w in allowed),
                  f"{name}{kwargs}: mean {m}, amplitude {a}: got {g}, "
                  f"expected {allowed[0]}")
    return out


TYPES = ["DNVGL-RP-C203", "walker", "SWT", "Smith-Watson-Topper"]
CASES = [str, str.lower, str.upper, str.title, str.swapcase]


@st.composite
def without_mean(draw):
    """Saved data in the format without mean stress."""
    res = draw(st.one_of(
        st.none(), st.lists(gen.grid(-20, 20, 0.5), min_size=2, max_size=2,
                            unique=True)))
    return {
        "op": "rf",
        "t": 0,
        "unit": draw(st.sampled_from(["MPa", "ksi"])),
        "name": draw(st.sampled_from([None, "A"])),
        "data": {
            "range_bin_lower_bound": 0.5,
            "range_bin_width": 1.0,
            "hist": draw(st.lists(st.integers(0, 4), max_size=4)),
            "lg_c": draw(st.lists(gen.grid(1, 60, 0.5), min_size=1,
                                  max_size=3)),
            "nr_small_cycles": 3,
            "res": [] if res is None else [abs(res[0] - res[1])],
            "res_sig": res,
        },
    }


@st.composite
def even(draw):
    """Windows without mean stress, of which the whole may have some."""
    tops = draw(st.lists(gen.grid(1, 20, 0.5), min_size=2, max_size=4))
    return {"op": "add", "args": [
        {"op": "ts", "x": [-v, v] if draw(st.booleans()) else [v, -v],
         "t": 10 * i, "unit": "MPa", "name": None}
        for i, v in enumerate(tops)]}


def tiny(cc):
    return {"op": "mul", "f": 2.0**-20, "left": True, "arg": cc}


@st.composite
def count_cases(draw):
    zero = draw(st.integers(0, 4)) == 0
    some = counts.counts(depth=2)
    return {
        "cc": draw(without_mean() if zero else st.one_of(
            some, some, some, even(), counts.counts(depth=1).map(tiny))),
        "flat": zero,
        "type": draw(st.sampled_from(CASES))(draw(st.sampled_from(TYPES))),
        "p": draw(st.sampled_from([None, 0.8, 0.6, 0.6])),
        "gamma": draw(st.sampled_from(GAMMAS + [None])),
        "pulsating": draw(st.booleans()),
        "plot": draw(st.integers(0, 24)) == 0,
    }


def saved_count(spec):
    """Without mean stress; the model cannot be made by counts.make."""
    import copy
    from py_fatigue import CycleCount

    return CycleCount.from_rainflow(
        copy.deepcopy(spec["data"]), timestamp=counts.stamp(spec["t"]),
        name=spec["name"], unit=spec["unit"])


@subtest(P, "cycle-counts", count_cases, "a count that is corrected",
         quick=1200, weight=3)
def of_count(case):
    cc = (saved_count(case["cc"]) if case["flat"]
          else counts.make(case["cc"])[0])
    base = counts.observe(cc)
    if case["flat"]:
        # half cycles of the data and of the residual sequence may differ
        check(all(r[1] == 0 for r in base.rows), "means are not zero")
    base = base.solve()
    typ = case["type"]
    kwargs = {"correction_type": typ}
    if typ.lower().startswith("dnv"):
        if case["p"]:
            kwargs["detail_factor"] = case["p"]
        p = case["p"] or 0.8

        def formula(m, a):
            return [(r, r / 2) for r in dnv(m, a, p)]
    else:
        gamma = 0.5
        if case["gamma"] is not None:
            kwargs["gamma"] = case["gamma"]
            if typ.lower() == "walker":
                gamma = case["gamma"]

        def formula(m, a):
            return [(r, 0.0) for r in walker(m, a, gamma)]
    if case["pulsating"]:
        kwargs["enforce_pulsating_load"] = True
    if case["plot"]:
        kwargs["plot"] = True
    rows = base.rows
    flat = all(r[1] == 0 for r in rows)
    out = {typ.lower()}
    with quiet():
        if flat and not case["pulsating"]:
            rejects("correction without mean stress", ValueError,
                    cc.mean_stress_correction, **kwargs)
            return {"rejected, no mean stress"}
        got = cc.mean_stress_correction(**kwargs)
    figures = len(plt.get_fignums())
    plt.close("all")
    check(figures == bool(case["plot"]), f"{figures} figures")
    if flat:
        rows = [(r, r / 2, c) for r, _, c in rows]
        out.add("pulsating")
    want = [formula(m, r / 2) for r, m, _ in rows]
    have = counts.rows_of(got)
    if all(len(w) == 1 for w in want):
        same_cycles(have, [w[0] + (r[2],) for w, r in zip(want, rows)],
                    f"{typ} correction")
    else:
        out.add("on the border of compression")
        ambiguous(have, want, rows, f"{typ} correction")
    check(got.unit == cc.unit, f"unit {got.unit!r}")
    check(got.name == cc.name, f"name {got.name!r}")
    check(got.timestamp == cc.timestamp, f"timestamp {got.timestamp}")
    check(counts.times_of(got) == counts.times_of(cc), "time sequence")
    check(got.mean_stress_corrected != "No", "not marked as corrected")
    check(typ.upper() in got.mean_stress_corrected,
          f"marked as {got.mean_stress_corrected!r} instead of {typ.upper()}")
    check(bool(got.lffd_solved) == base.solved, "resolved state")
    same_number(got.nr_small_cycles, base.small, "small cycles")
    same_number(got.range_bin_lower_bound, base.rlb, "range bound", 1e-12)
    same_number(got.range_bin_width, base.rw, "range width", 1e-12)
    same_number(got.mean_bin_width, base.mw, "mean width", 1e-12)
    same_number(got.stress_concentration_factor, base.scf, "SCF", 1e-12)
    counts.compare_sequences(got, base, "after correction", minmax=False)
    # only once
    before = counts.rows_of(got)
    with quiet():
        again = got.mean_stress_correction(correction_type="swt")
    check(counts.rows_of(again) == before, "corrected twice")
    check(again.mean_stress_corrected == got.mean_stress_corrected,
          "correction relabelled")
    for r, m, _ in rows:
        out.add(kind(m, r / 2))
    if any(c > 1 for _, _, c in rows):
        out.add("clustered")
    if not bool(cc.lffd_solved) and base.solved:
        out.add("resolved first")
    return out


def ambiguous(have, want, rows, what):
    def tag(c):
        return c % 1 == 0.5

    def items(c):
        return int(round(2 * c)) if tag(c) else int(c)

    scale = max(abs(v) for r in rows for v in r[:2])
    check(sum(c for _, _, c in have) == sum(c for _, _, c in rows),
          f"{what}: number of cycles")
    options = []
    for w, r in zip(want, rows):
        opts = [
            k for k, h in enumerate(have)
            if tag(h[2]) == tag(r[2]) and any(
                abs(h[0] - a) <= 1e-9 * scale and abs(h[1] - b)
                <= 1e-9 * scale for a, b in w)
        ]
        options += [opts] * items(r[2])
    where = match.assign(options,
                         {k: items(h[2]) for k, h in enumerate(have)})
    check(all(w is not None for w in where),
          f"{what}: got {have[:12]}, expected {want[:12]}")


@subtest(
    P,
    "rejection",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "what": st.sampled_from(["type", "detail", "function"]),
            "type": st.sampled_from(["goodman", "", "dnv", "morrow", "SWT ",
                                     "walker2"]),
            "p": st.one_of(
                st.sampled_from([0, 1, 0.7, 0.5, -0.8, 0.9]),
                gen.floats(0, 2).filter(lambda v: v not in (0.6, 0.8))),
            "cycles": st.lists(cycle(), min_size=1, max_size=4),
        }
    ),
    "every case",
    quick=300,
)
def rejection(case):
    what = case["what"]
    if what == "function":
        mean, amp = np.array(case["cycles"]).T
        with quiet():
            rejects(f"detail factor {case['p']}", ValueError,
                    msc.dnvgl_mean_stress_correction, mean, amp, case["p"])
        return {what}
    cc, _ = counts.make(case["cc"])
    with quiet():
        if what == "type":
            rejects(f"correction {case['type']!r}", ValueError,
                    cc.mean_stress_correction, case["type"])
        else:
            rejects(f"detail factor {case['p']}", ValueError,
                    cc.mean_stress_correction, detail_factor=case["p"])
    return {what}


# ----------------------------------------------------------- one after another
def with_other_signals(case, _other):
    if not case["flat"]:
        case["cc"] = turns.other_signals(case["cc"])
    return case


turns.in_turn(P, "functions", {
    "detail factor": turns.part("p"),
    "gamma": turns.part("gamma"),
    "cycles": turns.part("cycles"),
}, quick=600)
turns.in_turn(P, "cycle-counts", {
    "detail factor": turns.part("p"),
    "gamma": turns.part("gamma"),
    "type": turns.part("type"),
    "pulsating": turns.part("pulsating"),
    "other signals": with_other_signals,
}, quick=360)
