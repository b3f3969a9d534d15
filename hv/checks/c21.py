"""C21: curves start, end and pass where they are defined to."""

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import (
    V,
    arc_spec,
    bernstein,
    bezier_spec,
    build_path,
    chain,
    chord_length,
    euler,
    line_spec,
    natural_segments,
    num,
    param,
    path_scale,
    path_spec,
    polyline_spec,
    ref_path,
    ref_sampled_length,
    ref_true_length,
    rot,
    spline_spec,
    vec,
    xyz,
)
from hv.oracle import close, require


@st.composite
def points_case(draw):
    return {
        "p": draw(st.one_of(path_spec(), bezier_spec(lo=6, hi=10))),
        "t": draw(st.lists(param(), min_size=3, max_size=6)),
    }


def points(case, ctx):
    s = case["p"]
    path, ref = build_path(s), ref_path(s)
    tol = 1e-7 * (1 + path_scale(s))
    for t in case["t"] + [0.0, 1.0, 0, 1]:
        close(xyz(path(t)), ref(t), tol, f"{s['k']} at t={t}")
    ctx.label(s["k"])


@st.composite
def joins_case(draw):
    return {"p": draw(st.one_of(polyline_spec(2, 5), spline_spec(3, 7), polyline_spec(6, 12), spline_spec(8, 12)))}


def joins(case, ctx):
    """No jump anywhere, joints visited at their share of the length."""
    s = case["p"]
    path = build_path(s)
    segs = s["s"] if s["k"] == "polyline" else None
    if segs:
        ends = [ref_path(x)(1.0) for x in segs]
        start = ref_path(segs[0])(0.0)
        lens = [ref_sampled_length(x) for x in segs]
    else:
        ctr = natural_segments(s["p"])
        ends = [np.array(c[3]) for c in ctr]
        start = np.array(s["p"][0])
        lens = [chord_length(bernstein(c), 20) for c in ctr]
    share = np.cumsum(lens) / sum(lens)
    scale = 1 + path_scale(s)
    close(xyz(path(0.0)), start, 1e-7 * scale, "start")
    total = sum(lens)
    for b, e in zip(share, ends):
        for t in (b - 1e-7, b, b + 1e-7):
            t = min(max(t, 0.0), 1.0)
            close(xyz(path(t)), e, 2e-5 * scale + 1e-5 * total, f"joint near t={t}")
    close(xyz(path(1.0)), ends[-1], 1e-7 * scale, "end")
    # constant share of length within a straight segment
    if segs:
        lo = 0.0
        for x, hi in zip(segs, share):
            mid = ref_path(x)(0.5)
            close(xyz(path(lo + 0.5 * (hi - lo))), mid, 1e-6 * scale, "segment middle")
            lo = hi
    ctx.label(f"{s['k']} of {len(ends)}")


@st.composite
def closed_case(draw):
    kind = draw(st.sampled_from(["polyline", "spline"]))
    s = draw(polyline_spec(1, 4)) if kind == "polyline" else draw(spline_spec(3, 6))
    return {"p": s, "already": draw(st.booleans()), "gap": draw(st.sampled_from([None, None, 1e-2, 1e-3, 1e-4, 1e-6])), "t": draw(st.lists(param(), min_size=2, max_size=4))}


def nearly_closed(s, gap):
    """The curve with one more piece that ends close to the start."""
    if s["k"] == "polyline":
        a, b = ref_path(s["s"][0])(0.0), ref_path(s["s"][-1])(1.0)
        end = a + gap * np.array([0.6, 0.0, 0.8])
        return {**s, "s": s["s"] + [{"k": "line", "p": [b.tolist(), end.tolist()]}]}
    return {**s, "p": s["p"] + [[s["p"][0][0] + gap, s["p"][0][1], s["p"][0][2]]]}


def closed(case, ctx):
    from hypervehicle.geometry import Polyline
    from hypervehicle.geometry.path import Spline

    s = case["p"]
    scale = 1 + path_scale(s)
    if s["k"] == "polyline":
        first, last = ref_path(s["s"][0])(0.0), ref_path(s["s"][-1])(1.0)
    else:
        first, last = np.array(s["p"][0]), np.array(s["p"][-1])
    if np.linalg.norm(first - last) < 0.1:
        ctx.skip("ends meet by accident")
        return
    if case["gap"]:
        s = nearly_closed(s, case["gap"])
        ctx.label("nearly closed")
    if s["k"] == "polyline":
        segs = list(s["s"])
        a, b = ref_path(segs[0])(0.0), ref_path(segs[-1])(1.0)
        back = {"k": "line", "p": [b.tolist(), a.tolist()]}
        use = segs + [back] if case["already"] else segs
        path = Polyline([build_path(x) for x in use], closed=True)
        want = chain(
            [ref_path(x) for x in segs + [back]],
            [ref_sampled_length(x) for x in segs + [back]],
        )
        length = sum(ref_sampled_length(x) for x in segs + [back])
    else:
        pts = s["p"]
        a = np.array(pts[0])
        use = pts + [pts[0]] if case["already"] else pts
        path = Spline([V(p) for p in use], closed=True)
        ctr = natural_segments(pts + [pts[0]])
        lens = [chord_length(bernstein(c), 20) for c in ctr]
        want = chain([bernstein(c) for c in ctr], lens)
        length = sum(lens)
        for i, p in enumerate(pts):
            t = want.breaks[i]
            close(xyz(path(float(t))), p, 1e-6 * scale, f"point {i} of closed spline")
    close(xyz(path(0.0)), a, 1e-7 * scale, "start of closed curve")
    close(xyz(path(1.0)), a, 1e-7 * scale, "end of closed curve")
    for t in case["t"]:
        close(xyz(path(t)), want(t), 1e-6 * scale, f"closed curve at t={t}")
    close(path.length(), length, 1e-6 * length, "length of closed curve")
    ctx.label(s["k"] + (" already closed" if case["already"] else ""))


@st.composite
def smooth_case(draw):
    s = draw(st.one_of(spline_spec(3, 7), spline_spec(8, 14)))
    k = draw(st.sampled_from([1, 1, 30.0, 0.05]))
    return {"p": [[k * x for x in p] for p in s["p"]]}


def smooth(case, ctx):
    """Passes through all points, continuous slope and curvature in the
    segments' own parameters, zero curvature at the ends."""
    from hypervehicle.geometry.path import Spline

    pts = np.array(case["p"], float)
    sp = Spline([V(p) for p in pts])
    segs = sp.segments
    require(len(segs) == len(pts) - 1, f"{len(segs)} segments for {len(pts)} points")
    scale = np.abs(np.diff(pts, axis=0)).max() + np.abs(pts).max()
    h = 1e-3

    def d1(f, t, sgn):
        # one-sided derivative of a cubic from five values
        v = [xyz(f(t + sgn * h * i)) for i in range(5)]
        return sgn * (-25 * v[0] + 48 * v[1] - 36 * v[2] + 16 * v[3] - 3 * v[4]) / (12 * h)

    def d2(f, t, sgn):
        v = [xyz(f(t + sgn * h * i)) for i in range(4)]
        return (2 * v[0] - 5 * v[1] + 4 * v[2] - v[3]) / h**2

    for i, f in enumerate(segs):
        close(xyz(f(0.0)), pts[i], 1e-9 * scale, "segment start")
        close(xyz(f(1.0)), pts[i + 1], 1e-9 * scale, "segment end")
        if i:
            g = segs[i - 1]
            close(d1(f, 0.0, 1), d1(g, 1.0, -1), 1e-6 * scale, f"slope at point {i}")
            close(d2(f, 0.0, 1), d2(g, 1.0, -1), 1e-4 * scale, f"curvature at point {i}")
    close(d2(segs[0], 0.0, 1), np.zeros(3), 1e-4 * scale, "curvature at the start")
    close(d2(segs[-1], 1.0, -1), np.zeros(3), 1e-4 * scale, "curvature at the end")
    close(xyz(sp(0.0)), pts[0], 1e-9 * scale, "start")
    close(xyz(sp(1.0)), pts[-1], 1e-9 * scale, "end")


@st.composite
def length_case(draw):
    return {"p": draw(st.one_of(path_spec(), polyline_spec(6, 12), bezier_spec(lo=6, hi=10)))}


def length(case, ctx):
    s = case["p"]
    got = build_path(s).length()
    want = ref_true_length(s)
    tol = 1e-7 if s["k"] in ("line", "arc") else 0.02
    close(got, want, tol * want + 1e-9, f"length of {s['k']}")
    ctx.label(s["k"])


@st.composite
def motion_case(draw):
    return {
        "p": draw(path_spec()),
        "e": draw(euler()),
        "d": draw(vec(5)),
        "k": draw(num(0.25, 4)),
        "t": draw(st.lists(param(), min_size=2, max_size=3)),
    }


def move_spec(s, m, d, k, e):
    if s["k"] == "polyline":
        return {"k": "polyline", "s": [move_spec(x, m, d, k, e) for x in s["s"]]}
    return {"k": s["k"], "p": [(k * (m @ np.array(p)) + d).tolist() for p in s["p"]]}


def motion(case, ctx):
    from hypervehicle.geometry import Arc, Polyline

    m, d, k = rot(case["e"]), np.array(case["d"]), case["k"]
    s = case["p"]

    def f(p):
        return k * (m @ p) + d

    def mv(x):
        if x["k"] == "polyline":
            return Polyline([mv(y) for y in x["s"]])
        if x["k"] == "arc":
            a = build_path(x)
            return Arc(*(V(f(xyz(p))) for p in (a.a, a.b, a.c)))
        return build_path(move_spec(x, m, d, k, None))

    path, moved = build_path(s), mv(s)
    tol = 1e-6 * (1 + path_scale(s)) * max(1, k)
    for t in case["t"] + [0.0, 1.0]:
        close(xyz(moved(t)), f(xyz(path(t))), tol, f"moved {s['k']} at t={t}")
    close(moved.length(), k * path.length(), tol * 10, "length of the moved curve")
    if s["k"] == "line":
        off = V(case["d"])
        q = path + off
        close(xyz(q(case["t"][0])), xyz(path(case["t"][0])) + d, 1e-9 * 20, "line + vector")
    ctx.label(s["k"])


FACETS = [
    Facet("points", points_case, points, 300, rule="every case (labels give curve kinds)"),
    Facet("joins", joins_case, joins, 200, rule="every chain of two or more segments"),
    Facet("closed", closed_case, closed, 200, rule="start and end of the open curve differ"),
    Facet("smooth", smooth_case, smooth, 150, rule="every spline of three or more points"),
    Facet("length", length_case, length, 200, rule="every case"),
    Facet("motion", motion_case, motion, 200, rule="every case"),
]
ASSUMPTIONS = [
    "consecutive defining points are at least 0.25 apart (zero-length segments are outside the documented use)",
    "sampled lengths may fall short of the true length by up to two per cent",
]
