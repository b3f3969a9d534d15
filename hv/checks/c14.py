"""C14: fin surfaces follow the planform, thickness, rudder, pivot and placement."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_fin, fin_offset, fin_points, fin_spec, mesh_of, thickness_function, width
from hv.core import Facet
from hv.gen import axis_rot, grid_params, num, ref_path, xyz
from hv.oracle import bad_edges, close, require


@st.composite
def fin_case(draw, placed=False, n=6, rudder=None):
    s = draw(fin_spec(placed=placed, res=(1, 2)))
    if rudder:
        s["rudder"] = rudder
    c = {"s": s, "q": draw(grid_params(n))}
    if draw(st.booleans()):
        c["bump"] = [draw(num(-0.2, 1.0)), draw(num(-0.2, 1.0))]
    if draw(st.integers(0, 4)) == 0:
        c["default_width"] = True
    return c


def thickness(case, side):
    """Signed z displacement: half the thickness on the root and trailing
    edges, swelling in between."""
    s = case["s"]
    p0, p1, _, p3 = fin_points(s)
    sg = -1.0 if side == "top" else 1.0
    k = case.get("bump", [0.0, 0.0])[0 if side == "top" else 1] * s["th"]
    dx, dy = p1[0] - p0[0], p1[1] - p0[1]

    def f(x, y):
        behind = ((x - p0[0]) * dy - (y - p0[1]) * dx) / (dy * (p3[0] - p0[0]))
        above = (y - p0[1]) / dy
        return sg * (s["th"] / 2 + k * behind * above * 0.5)

    return f


def build(case, **kw):
    s = case["s"]
    if "bump" in case:
        kw["top_thickness_function"] = thickness_function(thickness(case, "top"))
        kw["bot_thickness_function"] = thickness_function(thickness(case, "bot"))
    if case.get("default_width"):
        kw["LE_wf"] = None
    c = build_fin(s, **kw)
    c._multiprocess = False
    c.generate_patches()
    return c, list(c.patches.values())


def scale(s):
    return 1 + np.abs(np.array(fin_points(s))).max()


def front(case):
    p = fin_points(case["s"])
    f = ref_path({"k": "polyline", "s": [{"k": "line", "p": [p[1], p[2]]}, {"k": "line", "p": [p[2], p[3]]}]})
    return f, f.breaks[1]


def local_width(case):
    if case.get("default_width"):
        from hypervehicle.components.common import leading_edge_width_function

        return leading_edge_width_function
    return width(case["s"]["lew"])


def shape(case, ctx):
    s = case["s"]
    p0, p1, p2, p3 = (np.array(p) for p in fin_points(s))
    _, P = build(case)
    tol = 2e-5 * scale(s)
    h = s["th"] / 2
    w = local_width(case)
    q = case["q"] + [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]
    # faces: the quadrilateral, bilinear, lifted by the thickness functions
    for side, patch in (("top", P[0]), ("bot", P[1])):
        f = thickness(case, side)
        for r, t in q:
            a, b = (t, r) if side == "top" else (r, t)
            want = (1 - a) * (1 - b) * p0 + a * (1 - b) * p3 + (1 - a) * b * p1 + a * b * p2
            want[2] = f(want[0], want[1])
            close(xyz(patch(r, t)), want, tol, f"{side} face at {r, t}")
    # root: flat in y between the faces, round in front of p3
    for name, patch in (("round", P[6]), ("rear", P[7]), ("rear", P[8])):
        for r, t in q:
            x, y, z = xyz(patch(r, t))
            close(y, p0[1], tol, f"{name} part of the root at {r, t}: plane of the root")
            if name == "rear":
                require(p0[0] - tol <= x <= p3[0] + tol and abs(z) <= h + tol, f"root at {r, t} sticks out: {x, y, z}")
            else:
                e = ((x - p3[0]) / w(1.0)) ** 2 + (z / h) ** 2
                require(x >= p3[0] - tol and e <= 1 + 1e-4, f"round part of the root at {r, t} sticks out: {x, y, z}")
    wide = [np.ptp([xyz(P[k](r, t))[2] for r in (0.0, 1.0) for t in (0.0, 1.0)]) for k in (7, 8)]
    close(wide, [h, h], tol, "each rear part of the root covers half the thickness")
    # trailing edge
    L, ang = s["rl"], s["ra"]
    if s["rudder"] == "sharp":
        d = np.array([-L * math.cos(ang), 0.0, L * math.sin(ang)])
        for side, patch in (("top", P[9]), ("bot", P[10])):
            f = thickness(case, side)
            for r, t in q:
                a = t if side == "bot" else 1 - t
                c = p0 + r * (p1 - p0)
                rim = c + [0.0, 0.0, f(c[0], c[1])]
                close(xyz(patch(r, t)), (1 - a) * rim + a * (c + d), tol, f"{side} of the rudder at {r, t}")
        # tip corner: from the ellipse at p1 to the rear end of the rudder
        hit = min(np.abs(xyz(P[11](a, b)) - p1 - d).max() for a in (0, 1) for b in (0, 1))
        require(hit < tol, f"tip of the rudder is {hit:.3g} off")
        for r, t in q:
            u = xyz(P[12](r, t))
            close(u[1], p0[1], tol, "lower end of the rudder")
            # inside the triangle between both faces and the rear end
            a = (u[0] - p0[0]) / d[0]
            mid = a * d[2]
            require(-1e-6 <= a <= 1 + 1e-6, f"lower end of the rudder sticks out: {u.tolist()}")
            require(abs(u[2] - mid) <= h * (1 - a) + tol, f"lower end of the rudder at {r, t} sticks out: {u.tolist()}")
        ctx.label("deflected" if ang else "straight")
    else:
        for r, t in q:
            x, y, z = xyz(P[9](r, t))
            close(x, p1[0], tol, "round part of the trailing edge")
            e = ((y - p1[1]) / w(0.0)) ** 2 + (z / h) ** 2
            require(y >= p1[1] - tol and e <= 1 + 1e-4, f"round part of the trailing edge sticks out: {x, y, z}")
            for k in (10, 11):
                u = xyz(P[k](r, t))
                a = (u[1] - p0[1]) / (p1[1] - p0[1])
                close(u[0], p0[0] + a * (p1[0] - p0[0]), tol, "flat trailing edge")
                require(-1e-6 <= a <= 1 + 1e-6 and abs(u[2]) <= h + tol, f"flat trailing edge sticks out: {u.tolist()}")
    ctx.label(s["rudder"])
    ctx.label("varying thickness" if "bump" in case else "uniform")


def edge(case, ctx):
    """Leading edge p1-p2-p3 rounded with the local width, in two parts."""
    s = case["s"]
    _, P = build(case)
    f, tb = front(case)
    w = local_width(case)
    tol = 2e-5 * scale(s)
    top, bot = thickness(case, "top"), thickness(case, "bot")
    n = 0
    for side, group in (("top", P[2:4]), ("bot", P[4:6])):
        z = top if side == "top" else bot
        sg = -1.0 if side == "top" else 1.0
        for j, ((a, b), patch) in enumerate(zip([(0.0, tb), (tb, 1.0)], group)):
            for u, v in case["q"][3 * j : 3 * j + 3] + [[0.0, 0.5], [1.0, 0.5], [0.4, 0.0], [0.7, 1.0]]:
                t = b - u * (b - a)
                if abs(t - tb) < 2e-3:
                    continue
                m = f(t)
                m[2] = 0.5 * (top(m[0], m[1]) + bot(m[0], m[1]))
                h = abs(z(m[0], m[1]) - m[2])
                p = xyz(patch(u, v)) - m
                if t == 0.0:
                    k = np.array([0.0, 1.0])
                elif t == 1.0:
                    k = np.array([1.0, 0.0])
                else:
                    e = min(1e-3, t, 1 - t)
                    d = f(t + e) - f(t - e)
                    k = np.array([-d[1], d[0]]) / math.hypot(d[0], d[1])
                out = p[0] * k[0] + p[1] * k[1]
                along = -p[0] * k[1] + p[1] * k[0]
                wt = w(t)
                where = f"{side} part {j} at {u, v}"
                close((out / wt) ** 2 + (p[2] / h) ** 2, 1.0, 5e-3, where + ": ellipse of the local width and thickness")
                close(along, 0.0, 2e-3 * wt + tol, where + ": across the leading edge")
                require(out >= -tol and sg * p[2] >= -tol, where + ": wrong quarter of the ellipse")
                if v in (0.0, 1.0):
                    rim = (v == 0.0) == (side == "top")
                    close([out, p[2]], [0.0, sg * h] if rim else [wt, 0.0], tol, where + ": bounding curve")
                n += 1
    ctx.label("varying thickness" if "bump" in case else "uniform")
    if not n:
        ctx.skip("next to the kink only")


# ------------------------------------------------------------------ placement


@st.composite
def placed_case(draw):
    c = draw(fin_case(placed=True, n=3))
    c["defaults"] = draw(st.integers(0, 3)) == 0
    return c


def placed(case, ctx):
    """Pivot about y through the pivot point, then the fin angle about x, then
    the offset: for every part of the fin alike."""
    s = case["s"]
    _, local = build({**case, "s": {**{k: v for k, v in s.items() if k not in ("pp", "off", "offx")}, "fa": 0.0, "pa": 0.0}})
    pp = np.array(s["pp"])
    t = dict(s)
    if case["defaults"]:
        # pivot about the origin when no point is given
        t.pop("pp")
        pp = np.zeros(3)
    _, P = build({**case, "s": t})
    require(len(P) == len(local), f"{len(P)} patches instead of {len(local)}")
    ry, rx, off = axis_rot("y", s["pa"]), axis_rot("x", s["fa"]), fin_offset(s)
    for i, (a, b) in enumerate(zip(local, P)):
        for r, v in case["q"]:
            p = rx @ (pp + ry @ (xyz(a(r, v)) - pp))
            if off is not None:
                p = p + off(p)
            close(xyz(b(r, v)), p, 1e-8 * (1 + np.abs(p).max()), f"part {i} at {r, v}")
    for k, on in (("pivot", s["pa"]), ("angle", s["fa"]), ("offset", "off" in s), ("varying offset", s.get("offx"))):
        if on:
            ctx.label(k)
    if not (s["pa"] and s["fa"]):
        ctx.skip("fewer than two rotations")


@st.composite
def whole_case(draw):
    return draw(fin_case(placed=True, n=1))


def whole(case, ctx):
    """However thick, deflected and placed, the fin has no gaps."""
    c, _ = build(case)
    e = bad_edges(mesh_of(c))
    require(len(e) == 0, f"{len(e)} open or overlapping edges: {e[:1].tolist()}")
    ctx.label(case["s"]["rudder"])


FACETS = [
    Facet("shape", lambda: fin_case(rudder="flat"), shape, 60, rule="every case"),
    Facet("sharp", lambda: fin_case(rudder="sharp"), shape, 60, rule="every case"),
    Facet("edge", fin_case, edge, 40, rule="some point away from the kink"),
    Facet("edge2", fin_case, edge, 40, rule="some point away from the kink"),
    Facet("placed", placed_case, placed, 30, rule="pivoted and turned"),
    Facet("placed2", placed_case, placed, 30, rule="pivoted and turned"),
    Facet("placed3", placed_case, placed, 30, rule="pivoted and turned"),
    Facet("whole", whole_case, whole, 20, rule="every case"),
]
