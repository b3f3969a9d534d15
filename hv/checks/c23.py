"""C23: re-parameterised and derived curves trace the same geometry as their source."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import (
    V,
    build_path,
    build_field,
    build_surface,
    field_spec,
    num,
    param,
    path_scale,
    path_spec,
    ref_field,
    ref_path,
    surface_spec,
    vec,
    xyz,
)
from hv.oracle import close, must_raise, require

DENSE = 3000


def sampled(got, true, what):
    """Lengths summed over 20 chords: never longer, short by the kinks cut."""
    require(
        0.8 * true - 1e-9 <= got <= 1.002 * true + 1e-9,
        f"{what}: {got} where the geometric length is {true}",
    )


def fine_length(f, n=400):
    """Length by chords, with finer ones where the curve turns, so that kinks
    are hardly cut."""
    t = np.linspace(0, 1, n + 1)
    for _ in range(2):
        p = np.array([f(v) for v in t])
        d = np.diff(p, axis=0)
        e = np.maximum(np.linalg.norm(d, axis=1), 1e-300)
        turn = (d[1:] * d[:-1]).sum(axis=1) < 0.995 * e[1:] * e[:-1]
        near = np.concatenate([turn, [False]]) | np.concatenate([[False], turn])
        t = np.unique(np.concatenate([t] + [np.linspace(a, b, 12) for a, b, k in zip(t, t[1:], near) if k]))
    p = np.array([f(v) for v in t])
    return float(np.linalg.norm(np.diff(p, axis=0), axis=1).sum())


def dense(ref):
    t = np.linspace(0, 1, DENSE + 1)
    p = np.array([ref(v) for v in t])
    d = np.linalg.norm(np.diff(p, axis=0), axis=1)
    return t, p, np.concatenate([[0], np.cumsum(d)])


@st.composite
def arclen_case(draw):
    return {
        "p": draw(path_spec(("bezier", "spline", "polyline", "bezier", "spline", "arc", "line"))),
        "n": draw(st.sampled_from([None, 200, 500])),
        "t": draw(st.lists(param(), min_size=2, max_size=4)),
    }


def arclen(case, ctx):
    from hypervehicle.geometry.path import ArcLengthParameterizedPath

    s = case["p"]
    src, ref = build_path(s), ref_path(s)
    before = [xyz(src(t)) for t in (0.0, 0.37, 1.0)]
    n = case["n"] or 1000
    al = ArcLengthParameterizedPath(src) if case["n"] is None else ArcLengthParameterizedPath(src, n=n)
    scale = 1 + path_scale(s)
    t, p, cum = dense(ref)
    total = cum[-1]
    close(xyz(al(0.0)), ref(0.0), 1e-7 * scale, "start")
    close(xyz(al(1.0)), ref(1.0), 1e-7 * scale, "end")
    # The library interpolates between n samples; within one sample interval
    # the speed varies, so the error is bounded by the longest interval.
    step = np.diff(np.interp(np.linspace(0, 1, n + 1), t, cum)).max()
    for u in case["t"] + [0.2, 0.5, 0.8]:
        i = np.searchsorted(cum, u * total)
        i = min(max(i, 1), DENSE)
        w = (u * total - cum[i - 1]) / max(cum[i] - cum[i - 1], 1e-300)
        want = p[i - 1] + w * (p[i] - p[i - 1])
        close(xyz(al(u)), want, 0.6 * step + 2e-3 * total / 10, f"point at share {u}")
    # equal steps, equal distances along the curve
    m = 8
    pos = []
    for k in range(m + 1):
        x = xyz(al(k / m))
        # position along the source nearest to the expected share
        lo, hi = np.searchsorted(cum, [max(0, (k / m - 0.03) * total), (k / m + 0.03) * total])
        seg = slice(max(lo - 1, 0), min(hi + 1, DENSE) + 1)
        j = np.argmin(np.linalg.norm(p[seg] - x, axis=1)) + seg.start
        pos.append(cum[j])
    close(np.diff(pos), [total / m] * m, 2.5 * step + 2e-3 * total, "distances of equal steps")
    close(al.length(), total, 0.02 * total, "length")
    for a, b in zip(before, (0.0, 0.37, 1.0)):
        close(xyz(src(b)), a, 0, "source after use")
    ctx.label(s["k"])
    uneven = np.diff(cum).max() > 1.05 * np.diff(cum).min()
    if not uneven:
        ctx.skip("source already uniform")


@st.composite
def sub_case(draw):
    t0, t1 = draw(param()), draw(param())
    if t0 == t1:
        t1 = t0 + 0.5 if t0 < 0.5 else t0 - 0.375
    return {
        "p": draw(path_spec()),
        "t0": t0,
        "t1": t1,
        "inner": draw(st.booleans()),
        "u": draw(st.lists(param(), min_size=2, max_size=4)),
    }


def sub(case, ctx):
    from hypervehicle.geometry import geometry as g

    s = case["p"]
    src, ref = build_path(s), ref_path(s)
    scale = 1 + path_scale(s)
    before = [xyz(src(t)) for t in (0.0, 0.37, 1.0)]
    t0, t1 = case["t0"], case["t1"]
    part = g.SubRangedPath(src, t0, t1)
    for u in case["u"] + [0.0, 1.0, 0.5]:
        close(xyz(part(u)), ref(t0 + u * (t1 - t0)), 1e-7 * scale, f"part at {u}")
    f = lambda u: ref(t0 + u * (t1 - t0))
    true = fine_length(f)
    sampled(part.length(), true, "length of the part")
    rev = g.ReversedPath(src)
    for u in case["u"] + [0.0, 1.0]:
        close(xyz(rev(u)), ref(1 - u), 1e-7 * scale, f"reversed at {u}")
    full = fine_length(ref)
    close(rev.length(), full, 0.02 * full, "length of the reversed curve")
    if case["inner"]:
        again = g.SubRangedPath(part, 1.0, 0.5)
        for u in case["u"]:
            close(xyz(again(u)), f(1 - 0.5 * u), 1e-7 * scale, "part of a part")
        back = g.ReversedPath(g.ReversedPath(src))
        close(xyz(back(case["u"][0])), ref(case["u"][0]), 1e-7 * scale, "reversed twice")
    for a, b in zip(before, (0.0, 0.37, 1.0)):
        close(xyz(src(b)), a, 0, "source after use")
    must_raise(lambda: g.SubRangedPath(lambda t: t, 0.0, 1.0), "sub-range of something else")
    ctx.label("backward" if t1 < t0 else "forward")
    if t0 == t1:
        ctx.skip("empty range")


@st.composite
def derived_case(draw):
    return {
        "a": draw(path_spec()),
        "b": draw(path_spec()),
        "f": draw(field_spec(0.5)),
        "t": draw(st.lists(param(), min_size=2, max_size=4)),
        "p": [draw(vec(3)), draw(vec(3))],
    }


def derived(case, ctx):
    from hypervehicle.geometry import geometry as g

    a, b = build_path(case["a"]), build_path(case["b"])
    ra, rb = ref_path(case["a"]), ref_path(case["b"])
    scale = 1 + max(path_scale(case["a"]), path_scale(case["b"]))
    f = ref_field(case["f"])
    mean = g.GeometricMeanPathFunction(a, b)
    off = g.OffsetPathFunction(a, build_field(case["f"]))
    te = g.TrailingEdgePath(V(case["p"][0]), V(case["p"][1]), build_field(case["f"]))
    p0, p1 = np.array(case["p"][0]), np.array(case["p"][1])
    for t in case["t"] + [0.0, 1.0]:
        close(xyz(mean(t)), (ra(t) + rb(t)) / 2, 1e-7 * scale, f"mean at {t}")
        q = ra(t)
        close(xyz(off(t)), q + f(np.array([q[0], q[1], 0.0])), 1e-6 * scale, f"offset curve at {t}")
        q = p0 + t * (p1 - p0)
        close(xyz(te(t)), q + f(np.array([q[0], q[1], 0.0])), 1e-7 * 10, f"trailing edge at {t}")
        close(xyz(a(t)), ra(t), 1e-7 * scale, "first source after use")
        close(xyz(b(t)), rb(t), 1e-7 * scale, "second source after use")
    m2 = g.GeometricMeanPathFunction(a, off)
    close(xyz(m2(case["t"][0])), (xyz(a(case["t"][0])) + xyz(off(case["t"][0]))) / 2, 1e-7 * scale, "mean of derived")
    sampled(mean.length(), fine_length(lambda t: (ra(t) + rb(t)) / 2), "length of the mean")


@st.composite
def ellipse_case(draw):
    return {
        "c": draw(vec(3)),
        "th": draw(num(0.05, 2)),
        "neg": draw(st.booleans()),
        "w": draw(num(0.05, 2)),
        "side": draw(st.sampled_from(["top", "bot"])),
        "t": draw(st.lists(param(), min_size=2, max_size=4)),
    }


def ellipse(case, ctx):
    from hypervehicle.geometry import geometry as g

    c = np.array(case["c"])
    th, w = case["th"], case["w"]
    e = g.ElipsePath(V(c), -th if case["neg"] else th, w, case["side"])
    sgn = 1.0 if case["side"] == "bot" else -1.0
    prev = None
    for t in sorted(set(case["t"] + [0.0, 0.25, 0.5, 0.75, 1.0])):
        d = xyz(e(t)) - c
        close((d[1] / w) ** 2 + (d[2] / th) ** 2, 1.0, 1e-6, f"ellipse equation at {t}")
        close(d[0], 0.0, 1e-7 * w, "out of the plane of the ellipse")
        require(d[1] >= -1e-7 and sgn * d[2] >= -1e-7, "wrong quarter")
        ang = math.atan2(d[2], d[1])
        if prev is not None:
            require(ang > prev, "does not advance round the ellipse")
        prev = ang
    ends = [[0, w, 0], [0, 0, th]] if case["side"] == "bot" else [[0, 0, -th], [0, w, 0]]
    close(xyz(e(0.0)) - c, ends[0], 1e-6, "start")
    close(xyz(e(1.0)) - c, ends[1], 1e-6, "end")
    must_raise(lambda: g.ElipsePath(V(c), th, w, "left")(0.5), "unknown side")
    ctx.label(case["side"])


@st.composite
def perimeter_case(draw):
    return {"s": draw(surface_spec(depth=1)), "t": draw(st.lists(param(), min_size=2, max_size=6))}


def perimeter(case, ctx):
    from hypervehicle.geometry import geometry as g

    surf = build_surface(case["s"])
    per = g.SurfacePerimeter(surf)

    def corner(t):
        k = min(int(t * 4), 3)
        u = t * 4 - k
        return [(u, 0.0), (1.0, u), (1.0 - u, 1.0), (0.0, 1.0 - u)][k]

    # parameters are rounded to eight digits by the library
    scale = 1 + max(np.abs(xyz(surf(r, s))).max() for r in (0, 1) for s in (0, 1))
    for t in case["t"] + [0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0]:
        close(xyz(per(t)), xyz(surf(*corner(t))), 1e-5 * scale, f"perimeter at {t}")
    close(xyz(per(0.0)), xyz(per(1.0)), 1e-9 * scale, "closed perimeter")


FACETS = [
    Facet("arclength", arclen_case, arclen, 80, rule="source speed varies by more than 5 per cent"),
    Facet("subrange", sub_case, sub, 200, rule="range not empty"),
    Facet("derived", derived_case, derived, 150, rule="every case"),
    Facet("ellipse", ellipse_case, ellipse, 200, rule="every case"),
    Facet("perimeter", perimeter_case, perimeter, 150, rule="every case"),
]
ASSUMPTIONS = ["arc-length inversion is judged to the accuracy of its sample count"]
