"""P26: objects describe themselves."""

from __future__ import annotations

import html.parser
import math
import re
import xml.etree.ElementTree as ET

import matplotlib
import matplotlib.pyplot as plt
from hypothesis import strategies as st

from py_fatigue import ParisCurve, SNCurve
from py_fatigue.damage.crack_growth import get_crack_growth

from pbt import counts, cracks, curves, gen, turns
from pbt.core import call, check, close, fail, observing, subtest
from pbt.props.p25 import correct

P = "P26"
NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|[-+]?inf"


# ------------------------------------------------------------------- counts
class Table(html.parser.HTMLParser):
    """Cells of the rows of a table."""

    def __init__(self):
        super().__init__()
        self.rows, self.cell = [], None

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th"):
            self.cell = []

    def handle_endtag(self, tag):
        if tag in ("td", "th") and self.cell is not None:
            self.rows[-1].append("".join(self.cell).strip())
            self.cell = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell.append(data)


def row_of(rows, *words):
    """The value in the only row whose title has the words."""
    found = [r for r in rows if len(r) == 2
             and all(w in r[0].lower() for w in words)]
    if len(found) != 1:
        fail(f"{len(found)} rows about {' '.join(words)} in {rows}")
    return found[0]


def is_number(text, want, what):
    with observing(what):
        got = float(text)
    check(close(got, want, 2e-6, 1e-6), f"{what}: shows {text}, is {want}")


@subtest(
    P,
    "table of a count",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=2),
            "corr": st.sampled_from([None, None, "dnv", "swt"]),
            "name": st.sampled_from(["A", "a <b> & c", "1 2"]),
        }
    ),
    "every case",
    quick=400,
    weight=4,
)
def table(case):
    cc = correct(counts.make(case["cc"])[0], case["corr"])
    cc.name = case["name"]
    rows = counts.rows_of(cc)
    text = call("table", cc._repr_html_)
    parser = Table()
    parser.feed(text)
    shown = parser.rows
    check(any(case["name"] in r for r in shown),
          f"name {case['name']!r} is not shown in {shown}")
    full = [r[0] for r in rows if r[2] >= 1]
    title, value = row_of(shown, "largest", "full")
    check(cc.unit in title, f"unit {cc.unit} is not shown in {title!r}")
    out = counts.labels_of(case["cc"])
    if full and max(full) > float(cc.range_bin_lower_bound) * (1 + 1e-9):
        is_number(value, max(full), "largest full range")
    elif not full:
        check(not re.search(r"\d", value),
              f"largest full range {value} without full cycles")
        out.add("no full cycle")
    title, value = row_of(
        [r for r in shown if r and "full" not in r[0]], "largest")
    check(cc.unit in title, f"unit {cc.unit} is not shown in {title!r}")
    is_number(value, max(r[0] for r in rows), "largest range")
    is_number(row_of(shown, "number", "full")[1],
              sum(int(r[2]) for r in rows), "number of full cycles")
    is_number(row_of(shown, "number", "residuals")[1],
              sum(1 for r in rows if r[2] % 1 == 0.5), "number of residuals")
    is_number(row_of(shown, "small")[1], int(cc.nr_small_cycles),
              "number of small cycles")
    value = row_of(shown, "concentration")[1]
    scf = float(cc.stress_concentration_factor)
    if scf != 1:
        is_number(value, scf, "stress concentration factor")
        out.add("SCF")
    value = row_of(shown, "resolved")[1]
    check(value == str(bool(cc.lffd_solved)), f"resolved: {value}")
    value = row_of(shown, "corrected")[1]
    check(value == str(cc.mean_stress_corrected), f"corrected: {value}")
    if case["corr"]:
        out.add("corrected")
    return out


# ------------------------------------------------------------------- curves
WORDS = ["", None, "D", "Air", "DNVGL-RP-C203", "Free corrosion", "a <b> & c",
         "W3", " in water ", "two\nlines"]


@st.composite
def curve_cases(draw):
    kind = draw(st.sampled_from(["sn", "paris"]))
    return {
        "kind": kind,
        "spec": draw(curves.sn(branches=(1, 3)) if kind == "sn" else
                     curves.paris(branches=(1, 3), scales=(0, 0, -2))),
        "texts": {k: draw(st.sampled_from(WORDS))
                  for k in ("norm", "curve", "environment")},
        "color": draw(st.sampled_from([None, None, "#123456", "red"])),
    }


def make_curve(case):
    kwargs = dict(case["texts"])
    if case["color"]:
        kwargs["color"] = case["color"]
    make = curves.make_sn if case["kind"] == "sn" else curves.make_paris
    return make(case["spec"], **kwargs)


@subtest(
    P,
    "names and colors of curves",
    lambda: st.lists(curve_cases(), min_size=1, max_size=8),
    "every case",
    quick=500,
    weight=2,
)
def names(case):
    made = [(c, call("curve", make_curve, c)) for c in case]
    last, out = None, set()
    for spec, curve in made:
        name = str(curve)
        check(name == curve.name, f"text {name!r}, name {curve.name!r}")
        for key, word in spec["texts"].items():
            got = re.search(rf"{key}: (.*?)(,\n|$)", name, re.I | re.S)
            check(bool(got), f"no {key} in {name!r}")
            check(got.group(1) == (word or ""),
                  f"{key} is shown as {got.group(1)!r}, given {word!r}")
            check(getattr(curve, key) == word, f"{key} is not kept")
        curve.format_name(html_format=True)
        check("\n" not in curve.name and "<br>" in curve.name,
              f"name {curve.name!r} in HTML")
        for word in spec["texts"].values():
            check(all(line in curve.name
                      for line in (word or "").split("\n")),
                  "words lost in HTML")
        curve.format_name()
        check(curve.name == name, f"{curve.name!r} back from HTML")
        if spec["color"]:
            check(curve.color == spec["color"], "another color than given")
            out.add("given color")
            continue
        check(bool(curve.color), "no color")
        if last is not None:
            check(curve.color != last.color,
                  f"the same color {curve.color} twice in a row")
            check(curve.id != last.id, f"the same number {curve.id} twice")
            out.add("colors in a row")
        last = curve
    return out | {c["kind"] for c in case}


@subtest(
    P,
    "numbers of many curves",
    lambda: st.sampled_from([2, 2, 30, 50]).flatmap(lambda n: st.lists(
        st.sampled_from(["sn", "sn", "paris", "given"]), min_size=n,
        max_size=n + 20)),
    "two curves without color",
    quick=60,
    weight=5,
)
def many(case):
    made, last = [], None
    for kind in case:
        if kind == "paris":
            made.append(call("curve", ParisCurve, 3.0, 1e-11))
        elif kind == "sn":
            made.append(call("curve", SNCurve, 3.0, 12.0))
        else:
            got = call("curve", SNCurve, 3.0, 12.0, color="#123456")
            check(got.color == "#123456", "another color than given")
            last = None
            continue
        with observing("color"):
            check(made[-1].color != last, f"color {last} twice in a row")
            last = made[-1].color
    with observing("numbers"):
        ids = [c.id for c in made]
        check(len(set(ids)) == len(ids), f"numbers {ids} are not different")
    if len(made) < 2:
        return ()
    return {"more than 26" if len(made) > 26 else "up to 26"}


def svg_text(curve):
    """All text of the drawing."""
    before = plt.get_fignums()
    with matplotlib.rc_context({"svg.fonttype": "none"}):
        data = call("drawing", curve._repr_svg_)
    check(plt.get_fignums() == before, "a figure is left open")
    with observing("SVG"):
        root = ET.fromstring(data)
    check(root.tag.endswith("svg"), f"{root.tag} instead of SVG")
    return "\n".join(
        "".join(node.itertext()) for node in root.iter()
        if node.tag.endswith("}text"))


def shows_all(text, numbers, what):
    found = [float(t) for t in re.findall(NUMBER, text)]
    for num in numbers:
        # numpy writes eight decimals of numbers that are not very small
        atol = 5.1e-9 if abs(num) > 1e-5 else 0.0
        check(any(close(f, num, 1e-6, atol) for f in found),
              f"{what} {num} is not shown in {text!r}")


def shows_points(text, label, points, tols):
    """Pairs (x, y) after the label, within the printed digits."""
    found = re.findall(
        rf"{label}\s*(?:\d+)?: \(\s*({NUMBER}),\s*({NUMBER})\s*\)", text)
    check(len(found) == len(points),
          f"{len(found)} of {len(points)} shown: {label} in {text!r}")
    for got, want in zip(found, points):
        for g, w, (rtol, atol) in zip(got, want, tols):
            check(close(float(g), w, rtol, atol),
                  f"{label} shown at {got}, expected {want}")


@subtest(P, "drawing of a curve", curve_cases, "every case", quick=90,
         weight=100)
def drawing(case):
    curve = make_curve(case)
    spec = case["spec"]
    try:
        text = svg_text(curve)
    finally:
        plt.close("all")
    out = {case["kind"], f"{len(spec['m'])} branches"}
    shows_all(text, spec["m"], "slope")
    for word in case["texts"].values():
        check((word or "") in text, f"{word!r} is not shown in {text!r}")
    sci, two = (0.00501, 0.0), (0.0, 0.00501)
    if case["kind"] == "sn":
        shows_all(text, spec["a"], "intercept")
        tols = ((0.00501, 0.5), two)
        shows_points(text, "Knee", [k[::-1] for k in curves.knees_sn(spec)],
                     tols)
        end = []
        if spec["end"]:
            end = [(spec["end"], curves.ref_stress(spec, spec["end"]))]
            out.add("endurance")
        shows_points(text, "Endurance", end, tols)
        return out
    shows_all(text, spec["c"], "intercept")
    tols = (two, sci)
    shows_points(text, "Knee", curves.knees_paris(spec), tols)
    for key, label in (("thr", "Threshold"), ("crit", "Critical")):
        want = []
        if spec[key]:
            want = [(spec[key], curves.on_branch(spec, spec[key]))]
            out.add(label)
        else:
            check(f"{label}: (" not in text, f"{label} without one in {text!r}")
        shows_points(text, label, want, tols)
    if case["kind"] == "paris":
        # the box has the limits too, with two decimals
        for label, key in (("Threshold", "thr"), ("Critical", "crit")):
            for got in re.findall(rf"{label}: ({NUMBER})", text):
                check(not spec[key] or
                      close(float(got), spec[key], 1e-12, 0.0051),
                      f"{label} {spec[key]} is shown as {got}")
                out.add("limits in the box")
    return out


# --------------------------------------------------------------- geometries
@st.composite
def geometry_cases(draw):
    kind = draw(st.sampled_from(["ring", "full", "surface", "internal"]))
    if kind == "surface":
        return draw(cracks.surface())
    spec = draw(cracks.cylinder())
    if kind == "full":
        spec["kind"] = "full"
    if kind == "internal":
        spec["crack_position"] = "internal"
    return spec


@subtest(P, "text of a geometry", geometry_cases, "every case", quick=300)
def geometry(spec):
    geo = cracks.make(spec)
    text = str(geo)
    check(repr(geo) == text, f"text {text!r}, representation {geo!r}")
    check(type(geo).__name__ in text, f"class is missing in {text!r}")
    want = {"_id": geo._id, "initial_depth": spec["initial_depth"]}
    if spec["kind"] == "full":
        want.update(diameter=spec["outer_diameter"], height=spec["height"])
    elif spec["kind"] == "ring":
        want.update({k: spec[k] for k in cracks.KEYS})
    for key, val in want.items():
        found = re.findall(rf"(?<!\w){key}=([^,\n]+)", text)
        check(len(found) == 1, f"{key} is shown {len(found)} times in "
              f"{text!r}")
        if isinstance(val, str):
            check(found[0] == val, f"{key} is {val}, shown as {found[0]}")
        else:
            with observing(key):
                got = float(found[0])
            check(close(got, val, 1e-12), f"{key} is {val}, shown as {got}")
    return {spec["kind"], spec.get("crack_position", "")}


@subtest(
    P,
    "text of a crack growth",
    lambda: st.fixed_dictionaries(
        {
            "cc": counts.counts(depth=1),
            "geo": st.one_of(cracks.surface(), cracks.cylinder()),
            "rate": gen.grid(-14, -2, 0.5),
            "crit": st.sampled_from([None, 100.0, 3000.0]),
        }
    ),
    "every case",
    quick=150,
    weight=3,
)
def growth(case):
    cc, _ = counts.make(case["cc"])
    curve = curves.make_paris(
        {"m": [3.0], "c": [10.0 ** case["rate"]], "thr": 0.0,
         "crit": case["crit"], "unit": "MPa √mm"})
    grown = call("growth", get_crack_growth, cc, curve,
                 cracks.make(case["geo"]))
    text = str(grown).lower()
    fails = bool(grown.failure)
    check("failure" in text, f"{text!r} does not tell about failure")
    check(("no failure" in text) == (not fails),
          f"failure is {fails}, text is {text!r}")
    check(math.isfinite(float(grown.final_cycles)), "no final cycles")
    return {"failure" if fails else "no failure", case["geo"]["kind"]}


# ----------------------------------------------------------- one after another
turns.in_turn(P, "table of a count", {
    "correction": turns.part("corr"),
    **turns.of_counts("cc"),
}, quick=180)
