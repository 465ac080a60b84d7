"""P24: helpers."""

from __future__ import annotations

import math
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from py_fatigue import testing
from py_fatigue import utils as pfu
from py_fatigue.geometry.generic import kwargs_only
from py_fatigue.version import parse_version

from pbt import gen
from pbt.core import call, check, close, exactly, fail, floats, observing
from pbt.core import rejects, same, subtest

P = "P24"


# ---------------------------------------------------------------- time
@st.composite
def times(draw):
    return {
        "fs": draw(st.one_of(st.sampled_from([0.1, 1, 3, 5, 10, 20, 100]),
                             gen.grid(0.25, 50, 0.25), gen.floats(0.1, 60))),
        "duration": draw(st.one_of(st.integers(1, 60),
                                   gen.grid(0.25, 60, 0.25),
                                   gen.floats(0.01, 60))),
        "start": draw(st.one_of(st.none(), st.integers(0, 1000),
                                gen.floats(0, 1e4))),
    }


def sampled(fs, duration, start):
    args = (fs, duration) if start is None else (fs, duration, start)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return testing.get_sampled_time(*args)


@subtest(P, "sampled time", times, "two samples", quick=1500)
def time(case):
    fs, duration = case["fs"], case["duration"]
    start = case["start"] or 0.0
    if abs(duration * fs - 1) < 1e-9:
        return ()  # rounding decides whether it is too short
    if duration * fs < 1:
        rejects(f"{duration} s at {fs} Hz", (ValueError,), sampled, fs,
                duration, case["start"])
        return {"too short"}
    with observing("sampled time"):
        got = floats(sampled(fs, duration, case["start"]), "time")
    n = duration * fs
    slack = 1e-9 * (n + start * fs)
    check(n - slack - 1e-9 <= len(got) <= n + 1 + slack + 1e-9,
          f"{len(got)} samples of {duration} s at {fs} Hz")
    check(got[0] == start, f"starts at {got[0]} instead of {start}")
    scale = 1e-9 * (start + duration)
    for i, t in enumerate(got):
        check(close(t, start + i / fs, 0, scale),
              f"sample {i} at {t}, expected {start + i / fs}")
    check(got[-1] <= start + duration + scale, f"ends at {got[-1]}")
    check(got[-1] + 1 / fs >= start + duration - scale,
          f"ends at {got[-1]} before {start + duration}")
    if len(got) < 2:
        return ()
    out = {"whole" if n == int(n) else "part of a sample"}
    if case["start"] is not None:
        out.add("start")
    return out


@subtest(
    P,
    "impossible times",
    lambda: st.tuples(
        times(),
        st.sampled_from([("fs", 0), ("fs", -1), ("fs", -0.5), ("start", -1),
                         ("start", -0.25), ("duration", -1),
                         ("duration", -0.001), ("duration", 0)]),
    ).map(lambda t: dict(t[0], **{t[1][0]: t[1][1]}, changed=t[1][0])),
    "every case",
    quick=150,
)
def impossible(case):
    rejects(f"{case['changed']} {case[case['changed']]}", (ValueError,),
            sampled, case["fs"], case["duration"], case["start"])
    return {case["changed"]}


# ---------------------------------------------------------------- data
DISTS = {
    "normal": {},
    "uniform": {},
    "random": {},
    "exponential": {"scale": [0.5, 2.0]},
    "weibull": {"a": [0.5, 1.0, 4.0]},
    "gumbel": {"loc": [0.0, 3.0]},
    "gamma": {"shape": [0.5, 7.0]},
    "rayleigh": {},
    "standard_normal": {},
    "laplace": {},
}


@st.composite
def data_cases(draw):
    kind = draw(st.sampled_from(sorted(DISTS) + [None]))
    opts = {} if kind is None else {
        k: draw(st.sampled_from(v)) for k, v in DISTS[kind].items()}
    return {
        "n": draw(st.integers(2, 300)),
        "seed": draw(st.one_of(st.none(), st.integers(0, 2**32 - 2))),
        "kind": kind,
        "opts": opts,
        "min": draw(st.one_of(st.none(), gen.grid(-200, 200, 0.5),
                              gen.floats(-1e3, 1e3))),
        "range": draw(st.one_of(st.none(), gen.grid(0.5, 300, 0.5),
                                gen.floats(0.01, 1e3))),
        "t": draw(st.sampled_from(["time", "zeros", "list"])),
    }


def random_data(case, **changes):
    case = dict(case, **changes)
    kwargs = dict(case["opts"])
    for key, name in (("seed", "seed"), ("kind", "random_type"),
                      ("min", "min_"), ("range", "range_")):
        if case[key] is not None:
            kwargs[name] = case[key]
    t = np.arange(case["n"]) / 10.0
    if case["t"] == "zeros":
        t = np.zeros(case["n"])
    elif case["t"] == "list":
        t = t.tolist()
    with observing("random data"):
        return floats(testing.get_random_data(t, **kwargs), "random data")


@subtest(P, "random data", data_cases, "every case", quick=1000)
def data(case):
    state = np.random.get_state()
    try:
        got = random_data(case)
        np.random.seed(5)
        again = random_data(case, t="time" if case["t"] != "time" else
                            "zeros")
        other_seed = random_data(case, seed=(case["seed"] or 2) + 1)
        moved = random_data(case, min=17.0, range=3.0)
    finally:
        np.random.set_state(state)
    lo = -10.0 if case["min"] is None else case["min"]
    span = 50.0 if case["range"] is None else case["range"]
    eps = 1e-9 * (abs(lo) + span)
    check(len(got) == case["n"], f"{len(got)} values for {case['n']} times")
    check(close(min(got), lo, 0, eps), f"minimum {min(got)}, asked {lo}")
    check(close(max(got), lo + span, 0, eps),
          f"maximum {max(got)}, asked {lo + span}")
    exactly(again, got, "the same data again")
    same([(v - 17.0) / 3.0 for v in moved], [(v - lo) / span for v in got],
         "data in another range", 0, 1e-9 * (1 + abs(lo) / span))
    rng = np.random.default_rng(2 if case["seed"] is None else case["seed"])
    raw = getattr(rng, case["kind"] or "normal")(size=case["n"],
                                                 **case["opts"])
    unit = (raw - raw.min()) / (raw.max() - raw.min())
    same([(v - lo) / span for v in got], unit.tolist(),
         f"{case['kind']} data", 0, 1e-9 * (1 + abs(lo) / span))
    if case["n"] > 4:
        check(list(other_seed) != list(got),
              "the same data with another seed")
    return {case["kind"] or "default"}


# ---------------------------------------------------------------- versions
@st.composite
def versions(draw):
    nums = [draw(st.one_of(st.integers(0, 9), st.integers(0, 10**6)))
            for _ in range(3)]
    release = draw(st.one_of(
        st.none(), st.sampled_from(["alpha", "beta", "rc", "b-2", "a.b",
                                    "1", "rc1", "x.3"])))
    return {"nums": nums, "release": release,
            "num": draw(st.one_of(st.integers(0, 9), st.integers(0, 10**6))),
            "before": draw(st.sampled_from(["", "", "v", "version "]))}


@subtest(P, "versions", versions, "every case", quick=300)
def version(case):
    text = case["before"] + ".".join(map(str, case["nums"]))
    if case["release"]:
        text += f"-{case['release']}.{case['num']}"
    with observing("version"):
        got = parse_version(text)
        have = (got.major, got.minor, got.patch, got.release, got.num)
    want = (*case["nums"], case["release"],
            case["num"] if case["release"] else None)
    check(have == want, f"{text!r} read as {have}")
    check(tuple(got) == want, f"{text!r} read as {tuple(got)}")
    for bad in (".".join(map(str, case["nums"][:2])), str(case["nums"][0]),
                "", "a.b.c", "{}.-{}.{}".format(*case["nums"]),
                "{}.{}.-{}".format(*case["nums"]),
                "{}-{}-{}".format(*case["nums"]),
                "{}.{}.x".format(*case["nums"])):
        rejects(f"version {bad!r}", (ValueError,), parse_version, bad)
    return {"release" if case["release"] else "plain"}


# ---------------------------------------------------------------- splitting
@subtest(
    P,
    "splitting",
    lambda: st.fixed_dictionaries(
        {"what": st.one_of(st.integers(0, 60), st.integers(0, 10**6),
                           st.integers(2**53, 2**70)),
         "by": st.integers(1, 60),
         "items": st.lists(st.integers(0, 9), max_size=40),
         "n": st.integers(1, 12),
         "form": st.sampled_from(["list", "text", "array"])}),
    "parts that differ",
    quick=600,
)
def splitting(case):
    what, by = case["what"], case["by"]
    with observing("split"):
        parts = list(pfu.split(what, by))
    check(len(parts) == by, f"{what} split in {len(parts)} instead of {by}")
    check(sum(parts) == what, f"{what} split in parts of sum {sum(parts)}")
    check(max(parts) - min(parts) <= 1, f"{what} split in {parts}")
    items, n = case["items"], case["n"]
    given = {"list": items, "text": "".join(map(str, items)),
             "array": np.array(items)}[case["form"]]
    with observing("chunks"):
        got = [[int(v) for v in c] for c in pfu.chunks(given, n)]
    check(got == [items[i:i + n] for i in range(0, len(items), n)],
          f"chunks of {n} of {items}: {got}")
    return {case["form"]} if what % by else ()


# ---------------------------------------------------------------- comparing
scalars = st.one_of(st.none(), st.booleans(), st.integers(-3, 3),
                    gen.grid(-2, 2, 0.5), st.sampled_from(["", "a", "ab"]))
things = st.recursive(
    st.one_of(
        scalars.map(lambda v: ["scalar", v]),
        st.lists(gen.grid(-2, 2, 0.5), max_size=4).map(
            lambda v: ["array", v]),
    ),
    lambda inner: st.one_of(
        st.lists(inner, max_size=4).map(lambda v: ["list", v]),
        st.lists(inner, max_size=4).map(lambda v: ["tuple", v]),
        st.lists(st.tuples(st.sampled_from("abcd"), inner).map(list),
                 max_size=4, unique_by=lambda kv: kv[0]).map(
                     lambda v: ["dict", v]),
    ),
    max_leaves=8,
)


def build(spec):
    kind, val = spec
    if kind == "array":
        return np.array(val, float)
    if kind == "list":
        return [build(v) for v in val]
    if kind == "tuple":
        return tuple(build(v) for v in val)
    if kind == "dict":
        return {k: build(v) for k, v in val}
    return val


def turned(spec):
    """The same items in another order."""
    kind, val = spec
    if kind == "scalar":
        return spec
    if kind == "array" or len(val) > 1:
        return [kind, val[::-1]]
    if kind == "dict":
        return [kind, [[k, turned(v)] for k, v in val]]
    return [kind, [turned(v) for v in val]]


def alike(a, b):
    """Whether two specifications stand for the same value."""
    if a[0] != b[0]:
        for x in (a, b):
            if x[0] == "scalar" and not isinstance(x[1], str):
                return False
        return None  # not claimed: a list may equal an array
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return False
        each = [alike(x, y) for x, y in zip(a[1], b[1])]
        return False if False in each else (None if None in each else True)
    if a[0] == "dict":
        x, y = dict(map(tuple, a[1])), dict(map(tuple, b[1]))
        if set(x) != set(y):
            return False
        each = [alike(x[k], y[k]) for k in x]
        return False if False in each else (None if None in each else True)
    return a[1] == b[1]


@subtest(
    P,
    "comparing",
    lambda: st.fixed_dictionaries(
        {"a": things, "b": things, "same": st.integers(0, 3)}),
    "a nested thing",
    quick=1500,
)
def comparing(case):
    a, b = case["a"], case["b"]
    if case["same"] < 2:
        b = a if case["same"] == 0 else turned(a)
    want = alike(a, b)
    if want is None:
        return ()
    for x, y in ((a, b), (b, a)):
        try:
            got = bool(pfu.compare(build(x), build(y)))
        except Exception as exc:  # pylint: disable=broad-except
            fail(f"comparing {x} with {y} raised {type(exc).__name__}")
        check(got == want, f"comparing {x} with {y} gives {got}")
    if a[0] == b[0] == "scalar":
        return ()
    return {a[0], "same" if want else "different"}


# ---------------------------------------------------------------- dictionary
entries = st.one_of(
    gen.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, math.inf]),
    gen.floats(-1e6, 1e6).map(lambda v: ["numpy", v]),
    st.integers(-5, 5), st.booleans(), st.none(), st.sampled_from(["a", ""]))


@subtest(
    P,
    "compiled dictionary",
    lambda: st.lists(
        st.tuples(st.one_of(st.sampled_from("abcdé"),
                            st.sampled_from(["initial_depth", "_id", ""]),
                            st.integers(0, 3)), entries).map(list),
        max_size=8, unique_by=lambda kv: repr(kv[0])),
    "floats and other values",
    quick=300,
)
def compiled_dictionary(case):
    given = {k: np.float64(v[1]) if isinstance(v, list) else v
             for k, v in case}
    before = dict(given)
    want = {k: v for k, v in given.items()
            if isinstance(k, str) and isinstance(v, float)}
    got = call("dictionary", pfu.to_numba_dict, given)
    with observing("dictionary"):
        have = {str(k): float(v) for k, v in got.items()}
    check(have == want, f"{given} gives {have}")
    check(given == before, "the given dictionary changed")
    if not want or len(want) == len(given):
        return ()
    return {"floats and others"}


# ---------------------------------------------------------------- decorators
@subtest(
    P,
    "keywords only",
    lambda: st.fixed_dictionaries(
        {"values": st.lists(st.integers(-9, 9), min_size=1, max_size=4),
         "given": st.integers(0, 4), "default": st.booleans()}),
    "a value without keyword",
    quick=200,
)
def keywords_only(case):
    names = "abcd"[: len(case["values"])]

    class Thing:
        """Keeps what it is given."""

        def __init__(self, a=0, b=0, c=0, d=0):
            self.kept = [a, b, c, d]

    cls = kwargs_only(Thing)
    values = case["values"]
    n = min(case["given"], len(values))
    rest = dict(list(zip(names, values))[n:])
    if n:
        rejects(f"{n} values without keyword", TypeError, cls, *values[:n],
                **rest)
        return {f"{n} of {len(values)}"}
    with observing("kept values"):
        check(cls(**rest).kept == values + [0] * (4 - len(values)),
              "other values")
    return ()


@subtest(
    P,
    "in place",
    lambda: st.fixed_dictionaries(
        {"start": st.integers(-9, 9),
         "steps": st.lists(
             st.tuples(st.integers(-9, 9),
                       st.sampled_from([True, False, None]),
                       st.booleans()).map(list),
             min_size=1, max_size=6)}),
    "steps of both kinds",
    quick=300,
)
def in_place(case):
    class Thing:
        """A number that grows."""

        def __init__(self, val):
            self.val = val

        def _grow(self, by, twice=False):
            self.val += by * (2 if twice else 1)
            return self

        grow = pfu.inplacify(_grow)

    thing, val = Thing(case["start"]), case["start"]
    for by, inplace, twice in case["steps"]:
        kwargs = {} if inplace is None else {"inplace": inplace}
        if twice:
            kwargs["twice"] = True
        new = call("step", thing.grow, by, **kwargs)
        grown = val + by * (2 if twice else 1)
        with observing("result"):
            check(new.val == grown, f"{new.val} instead of {grown}")
            check((new is thing) == bool(inplace),
                  "in place" if new is thing else "a copy")
        if inplace:
            val = grown
        check(thing.val == val, "the original changed")
        if by % 2:
            thing, val = new, grown
    kinds = {bool(s[1]) for s in case["steps"]}
    return {"both"} if len(kinds) == 2 else ()


# ---------------------------------------------------------------- axes
@subtest(
    P,
    "axes",
    lambda: st.fixed_dictionaries(
        {"fig": st.sampled_from(["none", "empty", "one", "two", "wrong"]),
         "ax": st.sampled_from(["none", "of it", "other"]),
         "bad": st.sampled_from(["fig", 1, "axes", "list"]),
         "names": st.booleans()}),
    "a figure or axes are given",
    quick=120,
    weight=3,
)
def axes(case):
    try:
        fig = plt.figure() if case["fig"] != "none" else None
        all_ax = []
        if case["fig"] in ("one", "two"):
            all_ax = list(np.atleast_1d(
                fig.subplots(1, 2 if case["fig"] == "two" else 1)))
        ax = None
        if case["ax"] == "other":
            ax = plt.subplots()[1]
        elif case["ax"] == "of it" and all_ax:
            ax = all_ax[0]
        before = set(plt.get_fignums())
        if case["fig"] == "wrong":
            wrong = {"axes": plt.subplots()[1], "list": [fig]}.get(
                case["bad"], case["bad"])
            rejects(f"figure {wrong!r}", TypeError, pfu.make_axes, wrong, ax)
            return {"wrong figure"}
        args = {k: v for k, v in (("fig", fig), ("ax", ax))
                if v is not None or case["names"]}
        with observing("axes"):
            got_fig, got_ax = pfu.make_axes(**args)
            if ax is not None:
                check(got_ax is ax, "other axes than given")
            else:
                check(got_ax.figure is got_fig, "axes of another figure")
                if case["fig"] in ("one", "two"):
                    check(any(got_ax is a for a in all_ax), "new axes")
            if fig is not None:
                check(got_fig is fig, "another figure than given")
            elif ax is not None:
                check(got_fig is ax.figure, "another figure than the axes'")
            new = set(plt.get_fignums()) - before
            check(len(new) == (fig is None and ax is None),
                  f"{len(new)} new figures")
    finally:
        plt.close("all")
    if fig is None and ax is None:
        return ()
    return {f"figure {case['fig']}, axes {'none' if ax is None else 'given'}"}
