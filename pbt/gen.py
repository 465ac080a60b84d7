"""Strategies shared by the properties. All draw plain JSON-able values."""

from __future__ import annotations

import random

import numpy as np

from hypothesis import strategies as st

# ---------------------------------------------------------------- signals


# lists of different length, also such that numpy would stretch
UNEQUAL = (
    ([1.0, 2.0, 3.0], [1.0, 2.0]),
    ([1.0, 2.0], [1.0]),
    ([2.0], [1.0, 2.0, 3.0]),
)


def floats(lo, hi):
    return st.floats(
        lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False
    )


def grid(lo, hi, step):
    """Multiples of a power of two: their arithmetic is exact."""
    return st.integers(round(lo / step), round(hi / step)).map(
        lambda k: k * step
    )


def runs(values, min_size, max_size):
    """Samples that are repeated in place."""
    return st.lists(
        st.tuples(values, st.integers(1, 4)),
        min_size=min_size,
        max_size=max_size,
    ).map(lambda rs: [v for v, n in rs for _ in range(n)])


def zigzag(min_size, max_size, step=0.25):
    """Alternating steps up and down: every sample is a reversal."""

    def build(t):
        start, up, steps = t
        out = [start]
        for s in steps:
            out.append(out[-1] + (s if up else -s))
            up = not up
        return out

    return st.tuples(
        grid(-20, 20, step),
        st.booleans(),
        st.lists(
            grid(step, 16, step),
            min_size=max(min_size - 1, 1),
            max_size=max_size - 1,
        ),
    ).map(build)


def walk(n, seed, step):
    """A random walk with some flat stretches, on a grid or not."""
    rnd = random.Random(seed)
    x, out = 0.0, []
    for _ in range(n):
        if rnd.random() < 0.1 and out:
            out.append(out[-1])
            continue
        if step:
            x = step * rnd.randint(-60, 60) * 0.25 + 0.5 * step * round(
                x / step
            )
        else:
            x = 0.7 * x + rnd.gauss(0, 30)
        out.append(x)
    return out


def spiral(n, seed, kind):
    """Reversals whose ranges grow, shrink, or are all the same: none of them
    closes before the end, so all have to be kept in mind."""
    rnd = random.Random(seed)
    size = [0.25 * (4 + i + rnd.randint(0, 1)) for i in range(n)]
    if kind == "in":
        size.reverse()
    elif kind == "in out":
        size = size[::-2] + size[::2]
    elif kind == "out in":
        size = size[::2] + size[::-2]
    elif kind == "same":
        size = [size[-1]] * n
    elif kind == "nested":
        # full cycles inside the large ones
        size = [v if rnd.random() < 0.7 else 0.25 * rnd.randint(1, 3)
                for v in size[::-2] + size[::2]]
    sign = rnd.choice((1, -1))
    return [sign * v * (-1) ** i for i, v in enumerate(size)]


SPIRALS = ("in", "out", "in out", "out in", "same", "nested")


def spirals(lo=3, hi=400):
    return st.builds(
        lambda n, seed, kind: {"spiral": [n, seed, kind]},
        st.integers(lo, hi),
        st.integers(0, 2**32),
        st.sampled_from(SPIRALS),
    )


def record(lengths):
    """Long measurements, on both sides of the sizes of small integers."""
    return st.builds(
        lambda n, extra, seed, step: {"walk": [n + extra, seed, step]},
        st.sampled_from(lengths + [1024, 2048, 4096]),
        st.one_of(st.just(0), st.integers(0, 50)),
        st.integers(0, 2**32),
        st.sampled_from([0, 0.25, 8]),
    )


def long_signal(lo=100, hi=600):
    return st.builds(
        lambda n, seed, step: {"walk": [n, seed, step]},
        st.one_of(st.integers(lo, hi), st.sampled_from(
            [n for n in (100, 128, 200, 256, 300, 400, 500, 512, 600)
             if lo <= n <= hi])),
        st.integers(0, 2**32),
        st.sampled_from([0, 0.25, 1, 8]),
    )


def expand(sig):
    """The samples of a drawn signal."""
    if isinstance(sig, dict):
        if "spiral" in sig:
            return spiral(*sig["spiral"])
        return walk(*sig["walk"])
    return sig


def exact_signal(min_size=2, max_size=24):
    """Signals whose sums and halves are exact in binary."""
    return st.one_of(
        st.lists(
            st.integers(-3, 3).map(float),
            min_size=min_size,
            max_size=max_size,
        ),
        st.lists(grid(-50, 50, 0.25), min_size=min_size, max_size=max_size),
        zigzag(max(min_size, 2), max_size),
        runs(grid(-4, 4, 0.5), max(min_size, 1), max(max_size // 2, min_size)),
    )


def near_ties(min_size, max_size, fine=(6, 14, 20, 27, 34)):
    """Ranges that are the same up to a tiny difference, far above the
    spacing of the floats in use (all values are multiples of 2**-34)."""
    step = st.builds(
        lambda base, k, d: base + d * 2.0**-k,
        st.sampled_from([1.0, 1.0, 2.0, 3.0]),
        st.sampled_from(fine),
        st.integers(-2, 2),
    )

    def build(t):
        up, steps = t
        out = [0.0]
        for s in steps:
            out.append(out[-1] + (s if up else -s))
            up = not up
        return out

    return st.tuples(
        st.booleans(),
        st.lists(step, min_size=max(min_size - 1, 1), max_size=max_size - 1),
    ).map(build)


def any_scale(signal):
    """Very small or very large stresses, or a small variation of a large
    one, without rounding."""

    def build(t):
        x, k, offset = t
        if offset:
            return [offset + v for v in x]
        return [v * 2.0**k for v in x]

    return st.tuples(
        signal,
        st.sampled_from([-90, -60, -34, -17, 17, 40, 70]),
        st.sampled_from([0, 0, 0, 2.0**24, -(2.0**24), 2.0**40, -(2.0**40)]),
    ).map(build)


def any_signal(min_size=2, max_size=24):
    return st.one_of(
        exact_signal(min_size, max_size),
        near_ties(max(min_size, 2), max_size),
        any_scale(exact_signal(min_size, max_size)),
        st.lists(floats(-300, 300), min_size=min_size, max_size=max_size),
        st.lists(floats(-1e6, 1e6), min_size=min_size, max_size=max_size),
    )


def varying(strategy):
    """Signals with two distinct samples at least, made by construction."""

    def vary(x):
        if len(x) and min(x) != max(x):
            return x
        last = x[-1] if x else 0.0
        return list(x) + [last + max(1.0, abs(last))]

    return strategy.map(vary)


LAYOUTS = ["array"] * 4 + ["strided", "backwards", "read-only", "integers"]


def laid_out(values, layout):
    """The values as an array in another memory layout or type."""
    arr = np.array(values)
    if layout == "strided":
        return np.repeat(arr, 2)[::2]
    if layout == "backwards":
        return np.array(values[::-1])[::-1]
    if layout == "read-only":
        arr.flags.writeable = False
    if layout == "integers" and all(v == int(v) for v in values):
        return arr.astype(int)
    return arr
