"""Reference model of reversals, level crossings and rainflow counting.

Written from the text of ASTM E1049-85 (5.4.4) and of the property
statements, in plain Python, without using the code under test.
"""

from __future__ import annotations


def crossings(x, level):
    """Indices at which the signal leaves for the other side of the level.

    A crossing sits at the last sample before the signal is strictly on the
    other side. A signal that starts on the level crosses it when it leaves.
    Returns pairs (index, direction).
    """
    out = []
    side = 0
    for i, val in enumerate(x):
        new = (val > level) - (val < level)
        if new == 0 or new == side:
            continue
        if i > 0:
            out.append((i - 1, new))
        side = new
    return out


def extrema(x):
    """Samples where the signal changes direction (end of a plateau)."""
    out = []
    direction = 0
    for i in range(1, len(x)):
        new = (x[i] > x[i - 1]) - (x[i] < x[i - 1])
        if new == 0 or new == direction:
            continue
        if i > 1:
            out.append(i - 1)
        direction = new
    return out


def turning_points(x):
    inner = extrema(x)
    if not inner and (len(x) == 0 or x[0] == x[-1]):
        return []
    return [0] + inner + [len(x) - 1]


def astm(values):
    """Cycles of a sequence of reversals: (i, k, weight) with positions.

    ``i`` and ``k`` are the positions in ``values`` of the two points that
    bound the range counted as a cycle of the given weight.
    """
    pts: list[int] = []  # positions not discarded yet; pts[0] is the start S
    out = []
    for pos in range(len(values)):  # step 1
        pts.append(pos)
        while len(pts) >= 3:  # step 2
            x_range = abs(values[pts[-1]] - values[pts[-2]])
            y_range = abs(values[pts[-2]] - values[pts[-3]])
            if x_range < y_range:  # step 3
                break
            if len(pts) == 3:  # step 5: Y contains S
                out.append((pts[0], pts[1], 0.5))
                del pts[0]
            else:  # step 4
                out.append((pts[-3], pts[-2], 1.0))
                del pts[-3:-1]
    for i, k in zip(pts, pts[1:]):  # step 6
        out.append((i, k, 0.5))
    return [c for c in out if values[c[0]] != values[c[1]]]


def rainflow(x):
    """Rows (range, mean, weight, begin sample, period in samples) sorted by
    begin sample, and the indices of the residual sequence."""
    x = [float(v) for v in x]
    idx = turning_points(x)
    vals = [x[i] for i in idx]
    rows = []
    for i, k, weight in astm(vals):
        rows.append(
            (
                abs(vals[i] - vals[k]),
                (vals[i] + vals[k]) / 2,
                weight,
                idx[i],
                2 * (idx[k] - idx[i]),
            )
        )
    rows.sort(key=lambda r: r[3])
    res = [r[3] for r in rows if r[2] == 0.5] + [len(x) - 1]
    return rows, res


def cycles(x):
    """Entries (range, mean, count) of a signal."""
    return [r[:3] for r in rainflow(x)[0]]


def residual_sequence(x):
    return [float(x[i]) for i in rainflow(x)[1]]
