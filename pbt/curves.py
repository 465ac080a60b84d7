"""SN and Paris curves under test and their reference models."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from py_fatigue import ParisCurve, SNCurve

from pbt import gen

INF = math.inf
NEAR = [0.5, 0.9, 0.9995, 0.999999, 1 - 1e-8, 1.0, 1 + 1e-8, 1.000001, 1.0005, 1.1, 2.0,
        5.0]


# --------------------------------------------------------------- SN curves
@st.composite
def sn(draw, branches=(1, 6), endurance="any", unit="MPa", scales=(0,)):
    """Branches of increasing slope that meet at given knees; the scale is
    the power of ten by which stresses are shifted."""
    n = draw(st.integers(*branches))
    m = [draw(gen.grid(1.5, 6, 0.25))]
    a = [draw(gen.grid(8, 16, 0.125))]
    a[0] += m[0] * draw(st.sampled_from(scales))
    u = draw(gen.grid(4, 7, 0.125))  # log10 of the cycles at the knee
    log_s = (a[0] - u) / m[0]
    for _ in range(n - 1):
        m.append(m[-1] + draw(gen.grid(0.5, 4, 0.25)))
        a.append(u + m[-1] * log_s)
        du = draw(gen.grid(0.125, 1.5, 0.125))
        u_last, u = u, u + du
        log_s -= du / m[-1]
    if n > 1:
        u = u_last
    end = None
    if endurance == "any":
        endurance = draw(st.booleans())
    if endurance:
        end = 10 ** (u + draw(gen.grid(0.0625, 3, 0.0625)))
    return {
        "m": m,
        "a": a,
        "end": end,
        "unit": unit,
        "form": draw(st.sampled_from(["list", "array", "scalar", "tuple"])),
    }


def make_sn(spec, **kwargs):
    m, a = spec["m"], spec["a"]
    form = spec.get("form", "list")
    if form == "array":
        m, a = np.array(m), np.array(a)
    elif form == "tuple":
        m, a = tuple(m), tuple(a)
    elif form == "scalar" and len(m) == 1:
        m, a = m[0], a[0]
        if m == int(m):
            m = int(m)
    if spec["end"] is not None:
        kwargs["endurance"] = spec["end"]
    if spec["unit"] != "MPa":
        kwargs["unit_string"] = spec["unit"]
    return SNCurve(m, a, **kwargs)


def log_cycles(spec, stress):
    """log10 of the cycles to failure without regard to the endurance."""
    if stress == 0:
        return INF
    return max(
        a - m * math.log10(stress) for m, a in zip(spec["m"], spec["a"])
    )


def ref_cycles(spec, stress):
    log_n = log_cycles(spec, stress)
    if spec["end"] is not None and log_n > math.log10(spec["end"]):
        return INF
    return INF if log_n > 308 else 10**log_n


def at_endurance(spec, stress):
    """Rounding decides between a finite and an infinite life."""
    return (
        spec["end"] is not None
        and abs(log_cycles(spec, stress) - math.log10(spec["end"])) < 1e-9
    )


def ref_stress(spec, cycles):
    def of(n):
        return max(
            10 ** ((a - math.log10(n)) / m)
            for m, a in zip(spec["m"], spec["a"])
        )

    if cycles == INF:
        return ref_stress(spec, spec["end"]) if spec["end"] else 0.0
    value = of(cycles)
    if spec["end"] is not None:
        value = max(value, of(spec["end"]))
    return value


def knees_sn(spec):
    """(stress, cycles) where consecutive branches meet."""
    out = []
    m, a = spec["m"], spec["a"]
    for j in range(len(m) - 1):
        log_s = (a[j] - a[j + 1]) / (m[j] - m[j + 1])
        out.append((10**log_s, 10 ** (a[j] - m[j] * log_s)))
    return out


@st.composite
def stresses_for(draw, spec, min_size=1, max_size=8):
    """Stress ranges around the features of a curve, and far from them."""
    points = [s for s, _ in knees_sn(spec)]
    if spec["end"] is not None:
        points.append(ref_stress(spec, spec["end"]))
    points.append(10 ** ((spec["a"][0] - 6) / spec["m"][0]))
    near = st.tuples(
        st.sampled_from(points),
        st.sampled_from(NEAR),
    ).map(lambda t: t[0] * t[1])
    return draw(
        st.lists(
            st.one_of(
                near,
                near,
                gen.grid(0.25, 400, 0.25),
                gen.floats(0.001, 2000),
            ),
            min_size=min_size,
            max_size=max_size,
        )
    )


# ------------------------------------------------------------ Paris curves
@st.composite
def paris(draw, branches=(1, 5), threshold="any", critical="any",
          unit="MPa √mm", scales=(0,)):
    """Branches that meet at increasing knees; times ten to one of the
    ``scales``."""
    n = draw(st.integers(*branches))
    m = [draw(gen.grid(2, 5, 0.25))]
    c = [10.0 ** -draw(gen.grid(9, 16, 0.125))]
    log_k = draw(gen.grid(1.5, 2.25, 0.0625))
    knees = []
    for _ in range(n - 1):
        up = draw(st.booleans()) if m[-1] >= 3 else True
        step = draw(gen.grid(1, 3, 0.25))
        m.append(m[-1] + step if up else max(m[-1] - step, 1.5))
        c.append(c[-1] * 10 ** (log_k * (m[-2] - m[-1])))
        knees.append(log_k)
        log_k += draw(gen.grid(0.0625, 0.5, 0.0625))
    thr, crit = 0.0, None
    first = knees[0] if knees else log_k
    last = knees[-1] if knees else log_k
    if draw(st.booleans()) if threshold == "any" else threshold:
        thr = round(10 ** (first - draw(gen.grid(0.0625, 1, 0.0625))), 3)
    if draw(st.booleans()) if critical == "any" else critical:
        crit = round(10 ** (last + draw(gen.grid(0.0625, 1.5, 0.0625))), 3)
    scale = draw(st.sampled_from(scales))
    if scale:
        c = [v * 10.0 ** (-scale * s) for v, s in zip(c, m)]
        thr = thr * 10.0**scale
        crit = None if crit is None else crit * 10.0**scale
    return {
        "m": m,
        "c": c,
        "thr": thr,
        "crit": crit,
        "unit": unit,
        "form": draw(st.sampled_from(["list", "array", "scalar", "tuple"])),
    }


def make_paris(spec, **kwargs):
    m, c = spec["m"], spec["c"]
    form = spec.get("form", "list")
    if form == "array":
        m, c = np.array(m), np.array(c)
    elif form == "tuple":
        m, c = tuple(m), tuple(c)
    elif form == "scalar" and len(m) == 1:
        m, c = m[0], c[0]
    if spec["thr"]:
        kwargs["threshold"] = spec["thr"]
    if spec["crit"] is not None:
        kwargs["critical"] = spec["crit"]
    if spec["unit"] != "MPa √mm":
        kwargs["unit_string"] = spec["unit"]
    return ParisCurve(m, c, **kwargs)


def knees_paris(spec):
    """(SIF, growth rate) where consecutive branches meet."""
    out = []
    m, c = spec["m"], spec["c"]
    for j in range(len(m) - 1):
        log_k = (math.log10(c[j]) - math.log10(c[j + 1])) / (m[j + 1] - m[j])
        out.append((10**log_k, 10 ** (math.log10(c[j]) + m[j] * log_k)))
    return out


def branch(spec, sif):
    return sum(1 for k, _ in knees_paris(spec) if sif >= k)


def on_branch(spec, sif):
    j = branch(spec, sif)
    if sif == 0:
        return 0.0
    return 10 ** (math.log10(spec["c"][j]) + spec["m"][j] * math.log10(sif))


def ref_rate(spec, sif):
    if sif < spec["thr"]:
        return 0.0
    if spec["crit"] is not None and sif > spec["crit"]:
        return INF
    return on_branch(spec, sif)


def ref_sif(spec, rate):
    """Inverse of the growth rate, within threshold and critical value."""
    if rate <= (on_branch(spec, spec["thr"]) if spec["thr"] else 0.0):
        return spec["thr"]
    if spec["crit"] is not None and rate >= on_branch(spec, spec["crit"]):
        return spec["crit"]
    j = sum(1 for _, r in knees_paris(spec) if rate >= r)
    return 10 ** ((math.log10(rate) - math.log10(spec["c"][j])) /
                  spec["m"][j])


@st.composite
def sifs_for(draw, spec, min_size=1, max_size=8):
    points = [k for k, _ in knees_paris(spec)]
    if spec["thr"]:
        points.append(spec["thr"])
    if spec["crit"] is not None:
        points.append(spec["crit"])
    points.append(points[0] if points else 50.0)
    near = st.tuples(
        st.sampled_from(points),
        st.sampled_from(NEAR),
    ).map(lambda t: t[0] * t[1])
    return draw(
        st.lists(
            st.one_of(
                near, near, near, gen.grid(0.25, 400, 0.25),
                gen.floats(1e-3, 3000), st.sampled_from([0.0, INF, 1e9])
            ),
            min_size=min_size,
            max_size=max_size,
        )
    )
