"""P21: equality."""

from __future__ import annotations

import contextlib
import copy
import datetime as dt
import pickle

import numpy as np
from hypothesis import strategies as st

from pbt import counts, cracks, curves, gen
from pbt.core import call, check, describe, fail, observing, subtest

P = "P21"


def compare(a, b, equal, what):
    for x, y, side in ((a, b, "=="), (b, a, "== from the other side")):
        try:
            got, differ = bool(x == y), bool(x != y)
        except Exception as exc:  # pylint: disable=broad-except
            fail(f"{what}: {side} raised {describe(exc)}")
        check(got == equal, f"{what}: {side} gives {got}")
        check(differ == (not equal), f"{what}: != gives {differ}")


def nudge(value, how):
    """A different number."""
    if how == "ulp":
        return float(np.nextafter(value, np.inf))
    if how == "sign" and value:
        return -value
    return value + 1.0


ARRAYS = ["count_cycle", "stress_range", "mean_stress", "residuals_sequence"]
NUMBERS = ["range_bin_lower_bound", "range_bin_width", "mean_bin_width",
           "mean_bin_lower_bound", "nr_small_cycles",
           "stress_concentration_factor"]


@st.composite
def count_cases(draw):
    return {
        "cc": draw(counts.counts(depth=2) if draw(st.integers(0, 5)) else
                   counts.direct(60, (1, 9, 99, 99), (1.0,))),
        "attr": draw(st.sampled_from(
            ARRAYS + ARRAYS + NUMBERS + ["timestamp", "unit", "name",
                                         "lffd_solved",
                                         "mean_stress_corrected"])),
        "how": draw(st.sampled_from(["ulp", "sign", "one"])),
        "array": draw(st.sampled_from(
            ["element", "element", "longer", "shorter", "none", "empty"])),
        "at": draw(st.one_of(st.integers(0, 10**6), st.just(-1))),
    }


def change(cc, case):
    """A copy with a single difference, or none when nothing differs."""
    new = copy.deepcopy(cc)
    attr, how = case["attr"], case["how"]
    if attr in ARRAYS:
        old = getattr(cc, attr)
        old = None if old is None else np.array(old, float)
        kind = case["array"]
        if kind == "none":
            if old is None or attr != "residuals_sequence":
                return None
            val = None
        elif old is None:
            val = np.array([1.0, 2.0])
        elif kind == "longer":
            val = np.append(old, old[-1:] if len(old) else [1.0])
        elif kind in ("shorter", "empty"):
            if not len(old):
                return None
            val = old[:-1] if kind == "shorter" else np.empty(0)
        else:
            if not len(old):
                return None
            val = old.copy()
            i = case["at"] % len(old)
            val[i] = nudge(val[i], how)
        setattr(new, attr, val)
    elif attr in NUMBERS:
        setattr(new, attr, nudge(float(getattr(cc, attr)), how))
    elif attr == "timestamp":
        new.timestamp = cc.timestamp + dt.timedelta(
            **{"ulp": {"microseconds": 1}, "sign": {"days": -1},
               "one": {"minutes": 1}}[how])
    elif attr == "lffd_solved":
        new.lffd_solved = not cc.lffd_solved
    elif attr == "name":
        new.name = {"ulp": f"{cc.name} ", "sign": "other",
                    "one": None if cc.name else "one"}[how]
    else:
        setattr(new, attr, str(getattr(cc, attr)) + {
            "ulp": " ", "sign": ".", "one": "2"}[how])
    return new


def copies(obj, what):
    compare(obj, copy.deepcopy(obj), True, f"{what} with its copy")
    compare(obj, copy.copy(obj), True, f"{what} with its shallow copy")
    with observing(f"saving a {what}"):
        saved = pickle.loads(pickle.dumps(obj))
    compare(obj, saved, True, f"{what} with the one saved and loaded")


def use(obj, *actions):
    """Whether the actions work is up to other properties."""
    for action in actions:
        with contextlib.suppress(Exception):
            action(obj)


USES = (
    lambda c: c.full_cycles, lambda c: c.residuals, lambda c: c.bin_edges,
    lambda c: c.bin_centers, lambda c: c.statistical_moments,
    lambda c: c.min_max_sequence, lambda c: c.time_sequence,
    lambda c: c.max_stress, lambda c: c.as_dict(), lambda c: c.to_df(),
    str, lambda c: c * 2.0, lambda c: c + None, lambda c: c.solve_lffd(),
)


@subtest(P, "cycle-counts", count_cases, "a changed copy", quick=1500,
         weight=3)
def of_counts(case):
    cc, _ = counts.make(case["cc"])
    compare(cc, cc, True, "count with itself")
    copies(cc, "count")
    again = counts.make(case["cc"])[0]
    compare(cc, again, True, "count with one made the same way")
    use(again, USES[case["at"] % len(USES)], USES[case["at"] // 99 % len(USES)])
    compare(cc, again, True, "count with the same one after its use")
    new = change(cc, case)
    if new is None:
        return ()
    compare(cc, new, False, f"changed {case['attr']}")
    out = {case["attr"]}
    if case["attr"] in ARRAYS:
        out.add(case["array"])
    else:
        out.add(case["how"])
    return out


OTHERS = [None, 0, 1.5, "x", [], {}, (1,), "array", "copy of attributes",
          "sn", "paris", "frame", "class"]


@subtest(
    P,
    "other types",
    lambda: st.fixed_dictionaries(
        {"cc": counts.counts(depth=1), "sn": curves.sn(),
         "paris": curves.paris(), "other": st.integers(0, len(OTHERS) - 1),
         "which": st.sampled_from(["cc", "sn", "paris"])}
    ),
    "every case",
    quick=300,
    weight=2,
)
def other_types(case):
    objs = {
        "cc": counts.make(case["cc"])[0],
        "sn": curves.make_sn(case["sn"]),
        "paris": curves.make_paris(case["paris"]),
    }
    obj = objs[case["which"]]
    kind = OTHERS[case["other"]]
    other = kind
    if kind == "array":
        other = np.array([1.0, 2.0])
    elif kind == "copy of attributes":
        other = dict(obj.__dict__)
    elif kind == "frame":
        other = objs["cc"].to_df()
    elif kind == "class":
        other = type(obj)
    elif kind in ("sn", "paris"):
        other = objs["cc" if kind == case["which"] else kind]
    sided = isinstance(kind, str) and kind in ("array", "frame")
    what = f"{case['which']} with {kind!r}"
    for x, y in ((obj, other),) if sided else ((obj, other), (other, obj)):
        try:
            got = x == y
            got = bool(got) if np.ndim(got) == 0 else bool(np.any(got))
        except Exception as exc:  # pylint: disable=broad-except
            fail(f"{what}: raised {describe(exc)}")
        check(got is False, f"{what}: equal")
    return {case["which"], str(kind)}


TEXTS = {"environment": ["Air", "Free", None], "curve": ["D", "W3", None],
         "norm": ["DNV", "BS", None], "color": ["#112233", "#112234", "red"]}


@st.composite
def curve_cases(draw):
    kind = draw(st.sampled_from(["sn", "paris"]))
    spec = draw(curves.sn() if kind == "sn" else curves.paris())
    texts = {k: draw(st.sampled_from(v)) for k, v in TEXTS.items()}
    limits = ["end"] if kind == "sn" else ["thr", "crit"]
    return {
        "kind": kind,
        "spec": spec,
        "texts": texts,
        "attr": draw(st.sampled_from(
            ["m", "a", "branch", "unit"] + limits * 2 + sorted(TEXTS))),
        "how": draw(st.sampled_from(["ulp", "tiny", "much"])),
        "at": draw(st.integers(0, 4)),
        "pick": draw(st.integers(0, 1)),
        "form": draw(st.sampled_from(["list", "array", "scalar"])),
    }


def make_curve(kind, spec, texts):
    make = curves.make_sn if kind == "sn" else curves.make_paris
    return make(spec, **texts)


@subtest(P, "curves", curve_cases, "a curve with a single difference",
         quick=1200)
def of_curves(case):
    kind, spec, texts = case["kind"], case["spec"], case["texts"]
    base = call("curve", make_curve, kind, spec, texts)
    compare(base, base, True, "curve with itself")
    copies(base, "curve")
    again = make_curve(kind, spec, texts)
    compare(base, again, True, "curve with one made the same way")
    if kind == "sn":
        use(again, lambda c: c.get_cycles([50.0, 100.0]), str,
            lambda c: c.get_stress(1e6), lambda c: c.get_knee_cycles(),
            lambda c: c.get_knee_stress())
    else:
        use(again, lambda c: c.get_growth_rate([5.0, 10.0]), str,
            lambda c: c.get_sif(1e-6), lambda c: c.get_knee_sif(),
            lambda c: c.get_knee_growth_rate())
    compare(base, again, True, "curve with the same one after its use")
    form = dict(spec, form=case["form"])
    compare(base, make_curve(kind, form, texts), True,
            f"curve with one made from {case['form']}")
    new, words = copy.deepcopy(spec), dict(texts)
    attr = case["attr"]
    second = "a" if kind == "sn" else "c"

    def step(v):
        return v * {"ulp": 1 + 2.3e-16, "tiny": 1 + 1e-9,
                    "much": 1.001}[case["how"]]

    if attr in ("m", "a"):
        key = "m" if attr == "m" else second
        i = case["at"] % len(new[key])
        new[key][i] = step(new[key][i])
        if new[key][i] == spec[key][i]:
            return ()
    elif attr == "branch":
        if len(new["m"]) < 2 or (kind == "sn" and new["end"]):
            return ()
        new["m"], new[second] = new["m"][:-1], new[second][:-1]
    elif attr == "unit":
        new["unit"] = {"MPa": "ksi", "MPa √mm": "MPa √m"}.get(
            spec["unit"], "MPa")
    elif attr in ("end", "thr", "crit"):
        if not new[attr]:
            return ()
        new[attr] = step(new[attr])
        if new[attr] == spec[attr]:
            return ()
    else:
        rest = [v for v in TEXTS[attr] if v != texts[attr]]
        words[attr] = rest[case["pick"] % len(rest)]
    try:
        other = make_curve(kind, new, words)
    except Exception:  # pylint: disable=broad-except
        return ()  # not a curve any more; P12 and P16 decide
    compare(base, other, False, f"changed {attr}")
    return {kind, attr, case["how"]}


@subtest(
    P,
    "geometries",
    lambda: st.fixed_dictionaries(
        {"geo": st.one_of(cracks.cylinder(), cracks.cylinder(),
                          cracks.surface()),
         "attr": st.integers(0, 9),
         "how": st.sampled_from(["ulp", "tiny"]),
         "cc": counts.any_leaf(0)}
    ),
    "a geometry with a single difference",
    quick=250,
)
def of_geometries(case):
    spec = case["geo"]
    base = call("geometry", cracks.make, spec)
    compare(base, base, True, "geometry with itself")
    copies(base, "geometry")
    compare(base, cracks.make(spec), True, "geometry with one made alike")
    other = cracks.make({"kind": "surface",
                         "initial_depth": spec["initial_depth"]})
    if spec["kind"] != "surface":
        compare(base, other, False, "geometries of different kind")
    compare(base, counts.make(case["cc"])[0], False, "geometry with a count")
    for thing in (None, 0, "x"):
        compare(base, thing, False, f"geometry with {thing!r}")
    keys = sorted(k for k, v in spec.items() if isinstance(v, float))
    key = keys[case["attr"] % len(keys)]
    new = dict(spec)
    new[key] *= 1 + (2.3e-16 if case["how"] == "ulp" else 1e-9)
    try:
        other = cracks.make(new)
    except Exception:  # pylint: disable=broad-except
        return ()  # not a geometry any more; P18 decides
    compare(base, other, False, f"changed {key}")
    return {spec["kind"], key, case["how"]}
