"""Sub-tests, oracles' helpers and failure classification.

A *sub-test* is a strategy that draws a plain JSON-able ``case`` and a function
``fn(case)`` that runs the code under test on it and compares with an oracle.
``fn`` raises :class:`Violation` when the property is broken. It returns a
collection of labels that classify the case; the case counts as non-trivial
when at least one label is returned (each sub-test states its rule).
"""

from __future__ import annotations

import contextlib
import dataclasses
import math
import traceback
from typing import Any, Callable, Iterable, Optional

import numpy as np

SUT_ROOT = "/repo/"


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    """The case did not come to an end."""


@dataclasses.dataclass
class SubTest:
    prop: str
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[Any], Iterable[str]]
    quick: int
    thorough: int
    rule: str
    weight: float = 1.0


REGISTRY: dict[str, list[SubTest]] = {}


def subtest(
    prop: str,
    name: str,
    strategy: Callable[[], Any],
    rule: str,
    quick: int = 300,
    thorough: Optional[int] = None,
    weight: float = 1.0,
):
    """Register ``fn`` as a sub-test of ``prop``.

    ``weight`` is the relative cost of one case, used to balance the workers.
    """

    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            SubTest(
                prop,
                name,
                strategy,
                fn,
                quick,
                thorough if thorough is not None else quick * 10,
                rule,
                weight,
            )
        )
        return fn

    return deco


# --------------------------------------------------------------------------
# failure classification
# --------------------------------------------------------------------------
def from_sut(exc: BaseException) -> bool:
    """Whether the exception passed through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(SUT_ROOT):
            return True
        tb = tb.tb_next
    return False


def describe(exc: BaseException) -> str:
    return "".join(
        traceback.format_exception_only(type(exc), exc)
    ).strip()[:2000]


# --------------------------------------------------------------------------
# helpers for oracles
# --------------------------------------------------------------------------
def fail(msg: str) -> None:
    raise Violation(msg)


def check(cond: Any, msg: str | Callable[[], str]) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextlib.contextmanager
def observing(what: str):
    """Reading a result of the code under test: a malformed result is a
    violation, not an error of the check."""
    try:
        yield
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f"{what}: malformed result, {describe(exc)}") from exc


def call(what: str, fn: Callable, *args, **kwargs):
    """Call compiled code, whose exceptions carry no Python frame."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(f"{what} raised {describe(exc)}") from exc


def rejects(what: str, exc_types, fn: Callable, *args, **kwargs) -> None:
    """``fn`` must refuse its input with one of ``exc_types``."""
    try:
        res = fn(*args, **kwargs)
    except exc_types:
        return
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            f"{what}: expected rejection, got {describe(exc)}"
        ) from exc
    raise Violation(f"{what}: accepted, result {str(res)[:200]!r}")


def part(x: Any, key: Any) -> Any:
    """An item of a result."""
    with observing(f"item {key!r} of the result"):
        return x[key]


def floats(x: Any, what: str, ndim: int = 1) -> np.ndarray:
    """A result as array of floats with the expected number of axes."""
    with observing(what):
        if x is None:
            raise TypeError("None")
        arr = np.asarray(x, dtype=float)
    check(arr.ndim == ndim, f"{what}: {arr.ndim} axes instead of {ndim}")
    return arr


def number(x: Any, what: str) -> float:
    with observing(what):
        if isinstance(x, (str, bytes)) or x is None:
            raise TypeError(repr(x))
        arr = np.asarray(x, dtype=float)
        if arr.size != 1:
            raise TypeError(f"{arr.size} values instead of a number")
        return float(arr.reshape(-1)[0])


def text(x: Any, what: str) -> str:
    check(isinstance(x, str), f"{what}: {type(x).__name__} instead of text")
    return x


def close(a: float, b: float, rtol: float = 1e-9, atol: float = 0.0) -> bool:
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_number(got, want, what, rtol=1e-9, atol=0.0) -> None:
    got = number(got, what)
    if not close(got, want, rtol, atol):
        fail(f"{what}: got {got!r}, expected {want!r}")


def same(got, want, what, rtol=1e-9, atol=0.0) -> None:
    """Two sequences of numbers are the same, in order."""
    got = floats(got, what)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        fail(
            f"{what}: {got.shape[0]} values instead of {want.shape[0]}: "
            f"got {got.tolist()[:20]}, expected {want.tolist()[:20]}"
        )
    for i, (g, w) in enumerate(zip(got.tolist(), want.tolist())):
        if not close(g, w, rtol, atol):
            fail(f"{what}[{i}]: got {g!r}, expected {w!r}")


def exactly(got, want, what) -> None:
    same(got, want, what, 0.0, 0.0)


def same_cycles(got, want, what, rtol=1e-9, scale=None) -> None:
    """Two sets of entries (range, mean, count) describe the same cycles.

    Entries are compared irrespective of their order. Coordinates may differ
    by ``rtol`` times the largest coordinate. Counts of entries with the same
    range and mean are pooled, separately for half and whole cycles, so that
    it does not matter whether equal cycles are listed one by one.
    """
    with observing(what):
        got = sorted(tuple(map(float, r)) for r in got)
        if any(len(r) != 3 for r in got):
            raise ValueError("entries are not (range, mean, count)")
    want = sorted(tuple(map(float, r)) for r in want)
    if not all(math.isfinite(c) for r in got for c in r):
        fail(f"{what}: result is not finite: {got[:10]}")
    if scale is None:
        scale = max([abs(c) for r in want + got for c in r[:2]] + [1e-300])
    tol = rtol * scale
    left = [r[2] for r in want]
    for ran, mea, cnt in got:
        todo = cnt
        i = _bisect(want, ran - tol)
        while todo > 1e-12 and i < len(want) and want[i][0] <= ran + tol:
            if (
                left[i] > 0
                and abs(want[i][1] - mea) <= tol
                and (want[i][2] % 1 == 0.5) == (cnt % 1 == 0.5)
            ):
                take = min(todo, left[i])
                left[i] -= take
                todo -= take
            i += 1
        if todo > 1e-12 or cnt <= 0:
            fail(
                f"{what}: cycle with range {ran!r}, mean {mea!r} and count "
                f"{cnt!r} is not expected; got {got[:12]}, "
                f"expected {want[:12]}"
            )
    for row, remaining in zip(want, left):
        if remaining > 1e-12:
            fail(
                f"{what}: cycle with range {row[0]!r}, mean {row[1]!r} and "
                f"count {row[2]!r} is missing; got {got[:12]}, "
                f"expected {want[:12]}"
            )


def _bisect(rows, value):
    lo, hi = 0, len(rows)
    while lo < hi:
        mid = (lo + hi) // 2
        if rows[mid][0] < value:
            lo = mid + 1
        else:
            hi = mid
    return lo
