"""C19: elementary surface shapes satisfy their defining equations."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import (
    FACE_AXIS,
    V,
    angle_deg,
    build_path,
    edges_spec,
    grid_params,
    num,
    param,
    path_spec,
    ref_path,
    vec,
    xyz,
)
from hv.oracle import close, must_raise, require

FACES = ["east", "west", "south", "north", "bottom", "top"]


@st.composite
def cone_case(draw):
    a0 = draw(angle_deg(-180, 180))
    return {
        "x": [draw(num(-3, 3)), draw(num(-3, 3))],
        "r": [draw(num(0, 3)), draw(num(0, 3))],
        "a": [a0, a0 + draw(st.one_of(num(-350, 350), st.sampled_from([360.0, -360.0])))],
        "q": draw(grid_params(4)),
        "k": draw(num(0.25, 4)),
    }


def cone(case, ctx):
    from hypervehicle.geometry.geometry import ConePatch

    x, r, a = case["x"], case["r"], [math.radians(v) for v in case["a"]]
    c = ConePatch(x[0], x[1], r[0], r[1], a[0], a[1])
    k = case["k"]
    big = ConePatch(k * x[0], k * x[1], k * r[0], k * r[1], a[0], a[1])
    for u, v in case["q"] + [[0, 0], [1, 0], [0, 1], [1, 1]]:
        p = xyz(c(u, v))
        rad = r[0] + (r[1] - r[0]) * u
        close(p[0], x[0] + (x[1] - x[0]) * u, 1e-9, "axial position")
        close(math.hypot(p[1], p[2]), rad, 1e-9, "radius")
        w = a[0] + (a[1] - a[0]) * v
        close(p[1:], [rad * math.cos(w), rad * math.sin(w)], 1e-8, "angle")
        close(xyz(big(u, v)), k * p, 1e-7, "scaled cone")
    if abs(case["a"][1] - case["a"][0]) == 360.0:
        for u, _ in case["q"]:
            close(xyz(c(u, 0.0)), xyz(c(u, 1.0)), 1e-9, "full turn closes")
    if max(r) == 0:
        ctx.skip("no radius")


@st.composite
def solid_case(draw):
    return {
        "kind": draw(st.sampled_from(["cube", "sphere"])),
        "r": draw(num(0.1, 5)),
        "c": draw(vec(4)),
        "q": draw(grid_params(4)),
        "k": draw(num(0.25, 4)),
        "d": draw(vec(3)),
    }


def solid(case, ctx):
    from hypervehicle.geometry.geometry import CubePatch, SpherePatch

    cls = CubePatch if case["kind"] == "cube" else SpherePatch
    r, c = case["r"], np.array(case["c"])
    k, d = case["k"], np.array(case["d"])
    tol = 1e-8 * (1 + r + np.abs(c).max())
    for f in FACES:
        patch = cls(r, V(c), f)
        moved = cls(k * r, V(k * c + d), f)
        i, sgn = FACE_AXIS[f]
        for u, v in case["q"] + [[0, 0], [1, 1], [0.5, 0.5], [1, 0.25]]:
            p = xyz(patch(u, v)) - c
            if case["kind"] == "cube":
                close(p[i], sgn * r, tol, f"{f} face plane")
                require(np.abs(p).max() <= r + tol, f"{f} face outside the cube")
            else:
                close(np.linalg.norm(p), r, tol, f"{f} face radius")
                require(sgn * p[i] >= np.abs(p).max() - tol, f"{f} face on the wrong side")
            close(xyz(moved(u, v)), k * (p + c) + d, tol * 20, f"{f} face moved and scaled")
    must_raise(lambda: cls(r, V(c), "front")(0.5, 0.5), "unknown face")
    # the six faces cover the solid exactly once
    n = 7
    got = 0.0
    for f in FACES:
        patch = cls(r, V(c), f)
        g = np.array([[xyz(patch(a / n, b / n)) - c for b in range(n + 1)] for a in range(n + 1)])
        A = np.cross(g[1:, :-1] - g[:-1, :-1], g[:-1, 1:] - g[:-1, :-1])
        i, sgn = FACE_AXIS[f]
        cen = (g[1:, :-1] + g[:-1, :-1] + g[:-1, 1:] + g[1:, 1:]) / 4
        dots = np.einsum("ijk,ijk->ij", A, cen)
        require(np.all(dots > 0) or np.all(dots < 0), f"{f} face folds over")
        B = np.cross(g[:-1, 1:] - g[1:, 1:], g[1:, :-1] - g[1:, 1:])
        got += (np.linalg.norm(A, axis=2).sum() + np.linalg.norm(B, axis=2).sum()) / 2
        # corners of the face are the four vertices of the solid on that side
        q = r if case["kind"] == "cube" else r / math.sqrt(3)
        cs = sorted(tuple(np.round(np.sign(g[a, b]), 3)) for a in (0, n) for b in (0, n))
        require(len(set(cs)) == 4, f"{f} face corners coincide")
        close(np.abs(g[[0, 0, n, n], [0, n, 0, n]]), np.full((4, 3), q), tol * 5, f"{f} face corners")
    want = 24 * r * r if case["kind"] == "cube" else 4 * math.pi * r * r
    close(got, want, (1e-9 if case["kind"] == "cube" else 0.03) * want, "area of the six faces")
    ctx.label(case["kind"])


@st.composite
def sweep_case(draw):
    n = draw(st.integers(2, 5))
    return {
        "edges": [draw(path_spec(("line", "bezier", "arc"))) for _ in range(n)],
        "q": draw(grid_params(5)),
    }


def sweep(case, ctx):
    from hypervehicle.geometry.geometry import SweptPatchfromEdges

    es = [ref_path(e) for e in case["edges"]]
    s = SweptPatchfromEdges([build_path(e) for e in case["edges"]])
    n = len(es) - 1
    for i, e in enumerate(es):
        for v in (0.0, 0.4, 1.0):
            close(xyz(s(i / n, v)), e(v), 1e-6, f"edge {i} of {n + 1}")
    for u, v in case["q"]:
        w = u * n
        i = min(int(w), n - 1)
        f = w - i
        close(xyz(s(u, v)), (1 - f) * es[i](v) + f * es[i + 1](v), 1e-6, f"between edges {i} and {i + 1}")
    ctx.label(f"{n + 1} edges")


@st.composite
def section_case(draw):
    n = draw(st.integers(2, 4))
    axis = draw(st.sampled_from(["x", "y", "z"]))
    z = [draw(num(-2, 2))]
    for _ in range(n - 1):
        z.append(z[-1] + draw(num(0.5, 2)))
    secs = []
    for h in z:
        w, t = draw(num(0.5, 2)), draw(num(0.5, 2))
        ox, oy = draw(num(-1, 1)), draw(num(-1, 1))
        secs.append([w, t, ox, oy, h])
    return {"axis": axis, "s": secs, "q": draw(grid_params(5))}


def section(case, ctx):
    from hypervehicle.geometry.geometry import SweptPatch
    from hypervehicle.geometry.surface import CoonsPatch

    ax = "xyz".index(case["axis"])
    others = [i for i in range(3) if i != ax]

    def pt(a, b, h):
        p = [0.0, 0.0, 0.0]
        p[others[0]], p[others[1]], p[ax] = a, b, h
        return np.array(p)

    patches, rects = [], []
    for w, t, ox, oy, h in case["s"]:
        c = [pt(ox, oy, h), pt(ox + w, oy, h), pt(ox + w, oy + t, h), pt(ox, oy + t, h)]
        rects.append(c)
        patches.append(CoonsPatch(p00=V(c[0]), p10=V(c[1]), p11=V(c[2]), p01=V(c[3])))
    sw = SweptPatch(patches, case["axis"])

    def per(c, t):
        k = min(int(t * 4), 3)
        u = t * 4 - k
        return c[k] + u * (c[(k + 1) % 4] - c[k])

    hs = [s[4] for s in case["s"]]
    for u, v in case["q"] + [[0.0, 0.3], [1.0, 0.6]]:
        d = hs[0] + u * (hs[-1] - hs[0])
        i = max(j for j in range(len(hs) - 1) if hs[j] <= d + 1e-12)
        f = (d - hs[i]) / (hs[i + 1] - hs[i])
        want = (1 - f) * per(rects[i], v) + f * per(rects[i + 1], v)
        close(xyz(sw(u, v)), want, 1e-6, f"swept point ({u}, {v})")
    for h, c in zip(hs, rects):
        u = (h - hs[0]) / (hs[-1] - hs[0])
        close(xyz(sw(u, 0.125)), per(c, 0.125), 1e-6, "given section")
    ctx.label(case["axis"])


@st.composite
def edge_case(draw):
    """A leading-edge line in the plane that turns from spanwise to chordwise."""
    p = [[0.0, draw(num(1, 3)), 0.0]]
    for _ in range(draw(st.integers(1, 2))):
        p.append([p[-1][0] + draw(num(0.5, 2)), max(p[-1][1] - draw(num(0.1, 1)), 0.1), 0.0])
    p.append([p[-1][0] + draw(num(0.5, 2)), 0.0, 0.0])
    ts = sorted([draw(num(0.0, 0.6)), draw(num(0.65, 1.0))])
    return {
        "p": p,
        "range": [draw(st.sampled_from([0.0, ts[0]])), draw(st.sampled_from([1.0, ts[1]]))],
        "th": [draw(num(0.05, 0.5)), draw(num(-0.05, 0.05)), draw(num(-0.01, 0.01))],
        "w": [draw(num(0.05, 0.5)), draw(num(0.0, 0.5))],
        "side": draw(st.sampled_from(["top", "bot"])),
        "q": draw(grid_params(4)),
        "mean": draw(st.booleans()),
        "z": draw(num(-0.2, 0.2)),
    }


def edge(case, ctx):
    from hypervehicle.geometry import Bezier
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.vector import Vector3

    sgn = 1.0 if case["side"] == "bot" else -1.0
    t0, t1 = case["range"]
    line = Bezier([V(p) for p in case["p"]])
    ref = ref_path({"k": "bezier", "p": case["p"]})
    c0, cx, cy = case["th"]

    def thick(x, y, z=0.0):
        return Vector3(0.0, 0.0, sgn * max(c0 + cx * x + cy * y, 0.02))

    w = lambda t: case["w"][0] + case["w"][1] * t
    z0 = case["z"] if case["mean"] else 0.0
    if case["mean"]:
        mean = Bezier([V([p[0], p[1], z0]) for p in case["p"]])
        guide = g.OffsetPathFunction(line, lambda x, y, z=0.0: Vector3(0.0, 0.0, z0) + thick(x, y))
        patch = g.MeanLeadingEdgePatchFunction(mean, guide, w, t0, t1, side=case["side"])
    else:
        patch = g.LeadingEdgePatchFunction(line, thick, w, t0, t1, side=case["side"])
    for u, v in case["q"] + [[0.0, 0.0], [1.0, 1.0], [0.5, 1.0], [0.3, 0.0], [0.0, 0.5], [1.0, 0.5]]:
        t = t1 - u * (t1 - t0)
        base = ref(t)
        base[2] = z0
        h = abs(thick(base[0], base[1]).z)
        p = xyz(patch(u, v)) - base
        if t == 0.0:
            n = np.array([0.0, 1.0])
        elif t == 1.0:
            n = np.array([1.0, 0.0])
        else:
            e = min(1e-3, t, 1 - t)
            tan = ref(t + e) - ref(t - e)
            n = np.array([-tan[1], tan[0]]) / math.hypot(tan[0], tan[1])
        out = p[0] * n[0] + p[1] * n[1]
        along = -p[0] * n[1] + p[1] * n[0]
        close((out / w(t)) ** 2 + (p[2] / h) ** 2, 1.0, 2e-3, f"ellipse at ({u}, {v})")
        close(along, 0.0, 1e-4 * w(t), "not across the leading edge")
        require(out >= -1e-6 and sgn * p[2] >= -1e-6, "wrong quarter of the ellipse")
        if v == 0.0:
            end = [w(t), 0.0] if case["side"] == "bot" else [0.0, -h]
            close([out, p[2]], end, 1e-6, "first bounding curve")
        if v == 1.0:
            end = [0.0, h] if case["side"] == "bot" else [w(t), 0.0]
            close([out, p[2]], end, 1e-6, "second bounding curve")
    ctx.label(("mean " if case["mean"] else "") + case["side"])


@st.composite
def trail_case(draw):
    return {
        "a": [draw(num(-1, 1)), draw(num(-1, 1))],
        "b": [draw(num(-1, 1)), draw(num(1.25, 3))],
        "top": [draw(num(0.05, 0.4)), draw(num(-0.05, 0.05))],
        "bot": [draw(num(0.05, 0.4)), draw(num(-0.05, 0.05))],
        "L": draw(num(0.1, 1.5)),
        "deg": draw(num(-40, 40)),
        "side": draw(st.sampled_from(["top", "bot"])),
        "q": draw(grid_params(3)),
    }


def trail(case, ctx):
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.vector import Vector3

    A = np.array(case["a"] + [0.0])
    B = np.array(case["b"] + [0.0])
    top = lambda x, y, z=0.0: Vector3(0.0, 0.0, -(case["top"][0] + case["top"][1] * y))
    bot = lambda x, y, z=0.0: Vector3(0.0, 0.0, case["bot"][0] + case["bot"][1] * y)
    ptop = g.TrailingEdgePath(V(A), V(B), top)
    pbot = g.TrailingEdgePath(V(A), V(B), bot)
    mean = g.GeometricMeanPathFunction(ptop, pbot)
    te = ptop if case["side"] == "top" else pbot
    L, ang = case["L"], math.radians(case["deg"])
    patch = g.MeanTrailingEdgePatch(mean, te, L, ang, case["side"])
    s_te, s_flap = (1.0, 0.0) if case["side"] == "top" else (0.0, 1.0)
    d = np.array([-L * math.cos(ang), 0.0, L * math.sin(ang)])

    def surf(r, f):
        q = A + r * (B - A)
        q[2] = f(q[0], q[1]).z
        return q

    def m(r):
        return (surf(r, top) + surf(r, bot)) / 2

    f = top if case["side"] == "top" else bot
    for r in (0.0, 0.3, 1.0):
        close(xyz(patch(r, s_te)), surf(r, f), 1e-8, "side on the surface")
        close(xyz(patch(r, s_flap)), m(r) + d, 1e-8, "flap edge")
    for r, s in case["q"]:
        k = s if case["side"] == "bot" else 1 - s
        want = (1 - k) * surf(r, f) + k * (m(r) + d)
        close(xyz(patch(r, s)), want, 1e-8, "ruled between surface and flap edge")
    flat = g.TrailingEdgePatch(V(A), V(B), te, L, ang, case["side"])
    for r in (0.0, 0.6, 1.0):
        close(xyz(flat(r, s_te)), surf(r, f), 1e-8, "side on the surface")
        q = A + r * (B - A)
        close(xyz(flat(r, s_flap)), q + d, 1e-8, "edge of a flap measured from the planform")
    must_raise(lambda: g.MeanTrailingEdgePatch(mean, te, L, ang, "left"), "unknown side")
    # a flat leading edge is ruled between its two curves
    t0, t1 = 0.2, 0.9
    flt = g.FlatLeadingEdgePatchFunction(ptop, pbot, t0, t1)
    for r, s in case["q"]:
        t = t1 - r * (t1 - t0)
        want = (1 - s) * surf(t, top) + s * surf(t, bot)
        close(xyz(flt(r, s)), want, 1e-8, "flat leading edge")
    ctx.label(case["side"])


@st.composite
def disc_case(draw):
    return {"r": draw(num(0.1, 5)), "c": draw(vec(4)), "q": draw(grid_params(5))}


def disc(case, ctx):
    """A circular patch fills its disc once, with the circle as its rim."""
    from hypervehicle.components.common import circle_patch

    r, c = case["r"], np.array(case["c"])
    patch = circle_patch(V(c), r)
    tol = 1e-8 * (1 + r + np.abs(c).max())
    for u, v in case["q"]:
        p = xyz(patch(u, v)) - c
        close(p[2], 0.0, tol, "height over the plane of the circle")
        require(np.hypot(p[0], p[1]) <= r + tol, "point outside the circle")
        for a, b in ((u, 0), (u, 1), (0, v), (1, v)):
            e = xyz(patch(a, b)) - c
            close(np.hypot(e[0], e[1]), r, tol, "rim of the circle")
    n = 12
    g = np.array([[xyz(patch(a / n, b / n)) - c for b in range(n + 1)] for a in range(n + 1)])
    A = np.cross(g[1:, 1:] - g[:-1, :-1], g[:-1, 1:] - g[1:, :-1])[..., 2] / 2
    require((A > 0).all() or (A < 0).all(), "circular patch folds over")
    close(abs(A.sum()), math.pi * r * r, 0.02 * math.pi * r * r, "area of the circle")
    if c[2] == 0:
        ctx.skip("centre in the x-y plane")


FACETS = [
    Facet("disc", disc_case, disc, 80, rule="centre off the x-y plane"),
    Facet("cone", cone_case, cone, 250, rule="some radius is not zero"),
    Facet("cube-sphere", solid_case, solid, 60, rule="every case"),
    Facet("sweep", sweep_case, sweep, 150, rule="every case"),
    Facet("sections", section_case, section, 150, rule="every case"),
    Facet("leading-edge", edge_case, edge, 60, rule="every case"),
    Facet("trailing-edge", trail_case, trail, 150, rule="every case"),
]
ASSUMPTIONS = ["leading-edge lines run from the tail towards the nose in the x-y plane"]
