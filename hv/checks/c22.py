"""C22: circular arcs stay on their circle in every plane."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import V, arc_spec, build_path, euler, num, param, path_scale, ref_path, rot, vec, xyz
from hv.oracle import close, must_raise


def tolerance(s):
    """Rounding of the coordinates plus a small part of the radius."""
    return 1e-10 * (1 + path_scale(s)) + 1e-7 * s["r"]


@st.composite
def circle_case(draw):
    return {"arc": draw(arc_spec(small=True)), "t": draw(st.lists(param(), min_size=2, max_size=5))}


def circle(case, ctx):
    s = case["arc"]
    arc = build_path(s)
    ref = ref_path(s)
    c = np.array(s["c"])
    m = rot(s["e"])
    tol = tolerance(s)
    for t in case["t"] + [0.0, 1.0, 0, 1]:
        p = xyz(arc(t))
        close(np.linalg.norm(p - c), s["r"], tol, f"radius at t={t}")
        close((p - c) @ m[:, 2], 0.0, tol, f"distance from the plane at t={t}")
        close(p, ref(t), tol, f"point at t={t}")
    close(xyz(arc(0.0)), xyz(arc.a), tol, "start")
    close(xyz(arc(1.0)), xyz(arc.b), tol, "end")
    close(arc.length(), s["r"] * math.radians(s["ang"]), tol, "length")
    # uniform speed: equal parameter steps give equal chords
    q = [xyz(arc(i / 6)) for i in range(7)]
    ch = [np.linalg.norm(b - a) for a, b in zip(q, q[1:])]
    close(ch, [2 * s["r"] * math.sin(math.radians(s["ang"]) / 12)] * 6, tol, "chords")
    if s["r"] < 0.1:
        ctx.label("small")
    if abs(m[1, 2]) < 1e-6:
        ctx.label("normal without y part")
    if (np.abs(m) > 1e-6).sum() == 3:
        ctx.skip("axis-aligned plane")


@st.composite
def motion_case(draw):
    return {
        "arc": draw(arc_spec(small=True)),
        "e": draw(euler()),
        "d": draw(vec(5)),
        "k": draw(num(0.25, 4)) * draw(st.sampled_from([1, 1, 0.1, 20, 500])),
        "t": draw(param()),
    }


def motion(case, ctx):
    from hypervehicle.geometry import Arc

    arc = build_path(case["arc"])
    m, d, k = rot(case["e"]), np.array(case["d"]), case["k"]

    def f(p):
        return k * (m @ p) + d

    moved = Arc(*(V(f(xyz(p))) for p in (arc.a, arc.b, arc.c)))
    # the centre may be far away compared with the radius
    tol = 10 * k * tolerance(case["arc"]) + 1e-9 * (1 + np.abs(d).max())
    for t in (0.0, 0.5, 1.0, case["t"]):
        close(xyz(moved(t)), f(xyz(arc(t))), tol, f"moved arc at t={t}")
    close(moved.length(), k * arc.length(), tol, "length of the moved arc")
    back = Arc(arc.b, arc.a, arc.c)
    close(xyz(back(case["t"])), xyz(arc(1 - case["t"])), tol, "reversed arc")


@st.composite
def reject_case(draw):
    q = st.integers(-12, 12).map(lambda i: i / 4)
    v = draw(st.tuples(q, q, q).map(list))
    if not any(v):
        v = [1.0, 0.0, 0.0]
    return {
        "arc": draw(arc_spec(small=True)),
        "grow": draw(st.one_of(num(1.01, 2), num(0.5, 0.99))),
        "v": v,
        "c": draw(st.tuples(q, q, q).map(list)),
        "sign": draw(st.sampled_from([-1.0, 1.0])),
        "which": draw(st.sampled_from(["a", "b"])),
    }


def reject(case, ctx):
    from hypervehicle.geometry import Arc

    s = case["arc"]
    arc = build_path(s)
    pts = {n: xyz(getattr(arc, n)) for n in "abc"}
    pts[case["which"]] = pts["c"] + case["grow"] * (pts[case["which"]] - pts["c"])

    def use(a, b, c):
        x = Arc(V(a), V(b), V(c))
        x(0.5)

    def length(a, b, c):
        Arc(V(a), V(b), V(c)).length()

    if abs(case["grow"] - 1) * s["r"] > 1e-4:
        must_raise(lambda: use(**pts), "unequal radii")
        must_raise(lambda: length(**pts), "unequal radii (length)")
    else:
        ctx.skip("nearly equal radii")
    v, c = np.array(case["v"]), np.array(case["c"])
    must_raise(lambda: use(c + v, c + case["sign"] * v, c), "points without a plane")
    must_raise(lambda: length(c + v, c + case["sign"] * v, c), "points without a plane (length)")


FACETS = [
    Facet("circle", circle_case, circle, 300, rule="plane of the arc not axis-aligned"),
    Facet("motion", motion_case, motion, 200, rule="every case"),
    Facet("reject", reject_case, reject, 150, rule="radii differ by more than 1e-4"),
]
ASSUMPTIONS = ["opening angles from 5 to 170 degrees, radii 0.001 to 4 (moved copies up to 8000)"]
