"""Inputs that share parts, one after another in one process.

What the code computed for one input must not show in the result of the next
one, however much they have in common. A sub-test made here takes two cases of
another sub-test, changes one part of the first case at a time (or takes it
from the second case), and judges all of them in turn, the first case again
last.
"""

from __future__ import annotations

import copy

from hypothesis import strategies as st

from pbt.core import REGISTRY, Violation, subtest


def at(case, path):
    for key in path:
        case = case[key]
    return case


def part(*path):
    """The part at the path is that of the other case."""

    def change(case, other):
        if path:
            at(case, path[:-1])[path[-1]] = at(other, path)
        return case

    return change


def parts(*keys):
    """These parts are those of the other case."""

    def change(case, other):
        for key in keys:
            case[key] = other[key]
        return case

    return change


def changed(*path, by):
    """``by`` changes the part at the path."""

    def change(case, _other):
        if not path:
            return by(case)
        at(case, path[:-1])[path[-1]] = by(at(case, path))
        return case

    return change


def in_turn(prop, name, changes, quick, weight=None):
    """A sub-test of ``prop`` from the sub-test called ``name``.

    ``changes`` are functions of two cases; they may return None when they do
    not apply.
    """
    sub = [s for s in REGISTRY[prop] if s.name == name][0]
    names = sorted(changes)

    @subtest(
        prop,
        f"{name} in turn",
        lambda: st.tuples(
            sub.strategy(), sub.strategy(),
            st.lists(st.sampled_from(names), min_size=1, max_size=5,
                     unique=True),
        ),
        "a change applies to a case where " + sub.rule,
        quick=quick,
        weight=4 * sub.weight if weight is None else weight,
    )
    def fn(case):
        first, second, picks = case
        out, any_labels = set(), False
        todo = [("first", first)]
        for pick in picks:
            new = changes[pick](copy.deepcopy(first),
                                copy.deepcopy(second))
            if new is not None and new != first:
                todo.append((pick, new))
                out.add(pick)
        todo.append(("first again", first))
        for pick, one in todo:
            try:
                labels = sub.fn(copy.deepcopy(one))
            except Violation as exc:
                raise Violation(f"{pick}: {exc}") from exc
            any_labels = any_labels or bool(labels)
        return out if any_labels else ()

    return fn


# ------------------------------------------------------------- counts
def other_signals(spec):
    """A count within the same bounds, the same names, times, bins
    and operations but other cycles."""
    spec = copy.deepcopy(spec)
    if spec["op"] == "ts":
        x = [0.5 * v if i % 2 else v for i, v in enumerate(spec["x"])]
        if min(x) == max(x):
            x[0] += 1.0 if x[0] <= 0 else -1.0
        spec["x"] = x
    elif spec["op"] == "rf":
        spec["data"]["lg_c"] = [[m, r + 2.0] for m, r
                                in spec["data"]["lg_c"]]
    for sub in spec.get("args", []):
        sub.update(other_signals(sub))
    if "arg" in spec:
        spec["arg"] = other_signals(spec["arg"])
    return spec


def other_factors(spec):
    """A count of the same signals, multiplied by other factors."""
    spec = copy.deepcopy(spec)
    if spec["op"] == "mul":
        spec["f"] = 2.0 if spec["f"] != 2.0 else 0.5
    for sub in spec.get("args", []):
        sub.update(other_factors(sub))
    if "arg" in spec:
        spec["arg"] = other_factors(spec["arg"])
    return spec


# ------------------------------------------------------------- curves
def other_end(spec):
    """The same branches with another endurance."""
    spec = dict(spec)
    if spec["end"] is None:
        last = len(spec["m"]) - 1
        top = 6.5
        if last:
            log_s = ((spec["a"][last - 1] - spec["a"][last])
                     / (spec["m"][last - 1] - spec["m"][last]))
            top = spec["a"][last] - spec["m"][last] * log_s + 0.5
        spec["end"] = 10.0**top
    else:
        spec["end"] *= 4.0
    return spec


def no_end(spec):
    return dict(spec, end=None)


def lower(spec):
    """A weaker detail with the same slopes and endurance."""
    return dict(spec, a=[a - 0.0625 * m for a, m in
                         zip(spec["a"], spec["m"])])


def fewer_branches(spec):
    """Without the last branch."""
    if len(spec["m"]) == 1:
        return dict(spec)
    out = dict(spec, m=spec["m"][:-1])
    key = "a" if "a" in spec else "c"
    out[key] = spec[key][:-1]
    return out


SN = {
    "endurance": other_end,
    "no endurance": no_end,
    "intercepts": lower,
    "fewer branches": fewer_branches,
}


def faster(spec):
    return dict(spec, c=[c * 1.25 for c in spec["c"]])


def no_threshold(spec):
    return dict(spec, thr=0.0)


def lower_threshold(spec):
    return dict(spec, thr=spec["thr"] * 0.5)


def no_critical(spec):
    return dict(spec, crit=None)


def higher_critical(spec):
    return dict(spec, crit=None if spec["crit"] is None
                else spec["crit"] * 1.25)


PARIS = {
    "intercepts": faster,
    "no threshold": no_threshold,
    "threshold": lower_threshold,
    "no critical value": no_critical,
    "critical value": higher_critical,
    "fewer branches": fewer_branches,
}


def of_curve(table, *path):
    """The changes of curves for the curve at the path."""
    return {f"curve: {name}": changed(*path, by=fn)
            for name, fn in table.items()}


def of_counts(*path):
    return {"other signals": changed(*path, by=other_signals),
            "other factors": changed(*path, by=other_factors)}


# ------------------------------------------------------------- geometries
def of_geometry(*path):
    def scaled(key, factor):
        def by(geo):
            if key not in geo:
                return geo
            return dict(geo, **{key: geo[key] * factor})
        return by

    return {
        "longer": changed(*path, by=scaled("height", 2.0)),
        "wider": changed(*path, by=scaled("outer_diameter", 1.25)),
        "shallower": changed(*path, by=scaled("initial_depth", 0.75)),
    }
