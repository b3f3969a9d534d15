"""C13: wing surfaces follow planform, thickness, leading-edge and flap definitions."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.comp import (
    build_wing,
    mesh_of,
    wing_curve,
    wing_spec,
    wing_t1,
    wing_thickness,
    width,
)
from hv.core import Facet
from hv.gen import grid_params, num, ref_path, xyz
from hv.oracle import bad_edges, close, require


@st.composite
def wing_case(draw, flat=False, n=6):
    s = draw(wing_spec(flat=flat, bump=True))
    if flat:
        s["flat_as"] = draw(st.sampled_from(["FLAT", "flat", "Flat"]))
    c = {"s": s, "q": draw(grid_params(n))}
    if draw(st.integers(0, 2)) == 0:
        c["t1"] = draw(num(0.15, 0.7))
    if draw(st.integers(0, 5)) == 0:
        c["default_width"] = True
    return c


def build(case, **kw):
    """The patches of the wing in order, and its two discretisation points."""
    s = dict(case["s"])
    t1 = wing_t1(s)
    if "t1" in case:
        kw["t_B1"] = t1 = case["t1"]
    t2 = 0.5 * (1 + t1)
    if "t2" in s:
        t2 = t1 + (1 - t1) * s["t2"]
        kw["t_B2"] = t2
    if case.get("default_width"):
        kw["LE_wf"] = None
    c = build_wing(s, **kw)
    c.generate_patches()
    return c, list(c.patches.values()), t1, t2


def size(s):
    return 1 + np.abs(np.array(s["le"])).max()


def corners(s):
    x0, y0, a1, chord = s["root"]
    return [np.array([x0 + d, y0, 0.0]) for d in (0.0, a1, chord)]


def on_curve(f, tol, what):
    """Distance check against a curve sampled finely, refined near the best."""

    def check(p):
        lo, hi = 0.0, 1.0
        for _ in range(4):
            ts = np.linspace(lo, hi, 41)
            d = [np.abs(f(t) - p).max() for t in ts]
            i = int(np.argmin(d))
            w = (hi - lo) / 40
            lo, hi = max(lo, ts[i] - w), min(hi, ts[i] + w)
        require(min(d) < tol, f"{what}: {p.tolist()} is {min(d):.3g} off")

    return check


def flat_edge(a, b):
    return lambda t: a + t * (b - a)


def surfaces(case, ctx):
    """Upper and lower surface: every point displaced by the thickness function
    at its planform position, the rim on the planform outline, and the planform
    covered once."""
    s = case["s"]
    _, patches, t1, t2 = build(case)
    le = ref_path(wing_curve(s))
    A0, A1, TT = corners(s)
    B0, B1, B2 = le(0.0), le(t1), le(t2)
    tol = 2e-5 * size(s)
    outline = {
        0: [flat_edge(A0, A1), flat_edge(A1, B1), lambda t: le(t1 * t), flat_edge(A0, B0)],
        1: [flat_edge(A1, TT), lambda t: le(1 - t * (1 - t2)), lambda t: le(t1 + t * (t2 - t1)), flat_edge(A1, B1)],
    }
    for side, pair in (("top", patches[0:2]), ("bot", patches[2:4])):
        z = wing_thickness(s, side)
        for j, patch in enumerate(pair):
            for r, t in case["q"] + [[0.0, 0.0], [1.0, 1.0], [0.5, 0.5]]:
                p = xyz(patch(r, t))
                close(p[2], z(p[0], p[1]), 1e-9 * size(s), f"{side} {j} at {r, t}: height over the planform")
            # the four sides are the four outlines of this half, in some order
            ends = []
            for k, g in enumerate([lambda t: (t, 0.0), lambda t: (1.0, t), lambda t: (t, 1.0), lambda t: (0.0, t)]):
                q = np.array([xyz(patch(*g(t))) for t in (0.0, 0.31, 0.77, 1.0)])
                q[:, 2] = 0.0
                ends.append(q)
            todo = list(outline[j])
            for k, q in enumerate(ends):
                for f in todo:
                    if min(
                        max(np.abs(q[0] - f(0.0)).max(), np.abs(q[-1] - f(1.0)).max()),
                        max(np.abs(q[0] - f(1.0)).max(), np.abs(q[-1] - f(0.0)).max()),
                    ) < tol and all(_near(f, p, tol) for p in q[1:3]):
                        todo.remove(f)
                        break
                else:
                    require(False, f"{side} {j}: side {k} from {q[0].tolist()} to {q[-1].tolist()} is not on the planform outline")
            # projected area against the area enclosed by the outline
            a = _projected(patch)
            want = _outline_area(outline[j])
            close(abs(a), abs(want), 4e-3 * abs(want) + 1e-6, f"{side} {j}: planform area covered")
            require(
                (a < 0) == (side == "top"),
                f"{side} {j} faces the wrong way",
            )
    ctx.label("given t_B1" if "t1" in case else "default t_B1")
    ctx.label("given t_B2" if "t2" in s else "default t_B2")
    if s["tf"]["bump"] == 0 and not (s["tf"]["top"][1] or s["tf"]["top"][2]):
        ctx.skip("constant thickness")


def _near(f, p, tol):
    try:
        on_curve(f, tol, "")(p)
    except Exception:
        return False
    return True


def _outline_area(parts, n=33):
    """Signed area inside south, east, north reversed, west reversed."""
    ts = np.linspace(0, 1, n)
    s, e, no, w = parts
    loop = np.array([s(t) for t in ts] + [e(t) for t in ts] + [no(t) for t in ts[::-1]] + [w(t) for t in ts[::-1]])
    x, y = loop[:, 0], loop[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


def _projected(patch, n=33):
    ts = np.linspace(0, 1, n)
    loop = (
        [xyz(patch(t, 0.0)) for t in ts]
        + [xyz(patch(1.0, t)) for t in ts]
        + [xyz(patch(t, 1.0)) for t in ts[::-1]]
        + [xyz(patch(0.0, t)) for t in ts[::-1]]
    )
    q = np.array(loop)
    x, y = q[:, 0], q[:, 1]
    return 0.5 * float(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


# --------------------------------------------------------------- leading edge


def edge(case, ctx):
    """Elliptical leading edge, over the whole curve in three parts."""
    s = case["s"]
    _, patches, t1, t2 = build(case)
    le = ref_path(wing_curve(s))
    kinks = getattr(le, "breaks", [])
    top, bot = wing_thickness(s, "top"), wing_thickness(s, "bot")
    if case.get("default_width"):
        from hypervehicle.components.common import leading_edge_width_function as w
    else:
        w = width(s["lew"])
    tol = 2e-5 * size(s)
    spans = [(0.0, t1), (t1, t2), (t2, 1.0)]
    used = 0
    for side, group in (("top", patches[4:7]), ("bot", patches[7:10])):
        z = top if side == "top" else bot
        for j, ((a, b), patch) in enumerate(zip(spans, group)):
            for u, v in case["q"][2 * j : 2 * j + 2] + [[0.0, 0.5], [1.0, 0.5], [0.4, 0.0], [0.7, 1.0]]:
                t = b - u * (b - a)
                m = le(t)
                zt, zb = top(m[0], m[1]), bot(m[0], m[1])
                m = np.array([m[0], m[1], 0.5 * (zt + zb)])
                h = abs(z(m[0], m[1]) - m[2])
                if any(abs(t - k) < 2e-3 for k in kinks) and 0 < t < 1:
                    continue
                p = xyz(patch(u, v)) - m
                if t == 0.0:
                    n = np.array([0.0, 1.0])
                elif t == 1.0:
                    n = np.array([1.0, 0.0])
                else:
                    e = min(1e-3, t, 1 - t)
                    d = le(t + e) - le(t - e)
                    n = np.array([-d[1], d[0]]) / math.hypot(d[0], d[1])
                out = p[0] * n[0] + p[1] * n[1]
                along = -p[0] * n[1] + p[1] * n[0]
                wt = w(t)
                where = f"{side} part {j} at {u, v}"
                close((out / wt) ** 2 + (p[2] / h) ** 2, 1.0, 5e-3, where + ": ellipse of the local width and thickness")
                close(along, 0.0, 2e-3 * wt + tol, where + ": across the leading edge")
                sg = -1.0 if side == "top" else 1.0
                require(out >= -tol and sg * p[2] >= -tol, where + ": wrong quarter of the ellipse")
                # one side of the patch is the rim of the surface, the other
                # the front of the leading edge
                at_rim = (v == 0.0) == (side == "top")
                if v in (0.0, 1.0):
                    close([out, p[2]], [0.0, sg * h] if at_rim else [wt, 0.0], tol, where + ": bounding curve")
                used += 1
    ctx.label("kinked" if len(kinks) else "smooth")
    ctx.label("default width" if case.get("default_width") else "given width")
    if not used:
        ctx.skip("kinks only")


def flat(case, ctx):
    """Flat leading edge: straight down from the upper to the lower rim."""
    s = case["s"]
    _, patches, t1, t2 = build(case)
    le = ref_path(wing_curve(s))
    top, bot = wing_thickness(s, "top"), wing_thickness(s, "bot")
    tol = 2e-5 * size(s)
    # the third part starts at t_B1 instead of t_B2 (known, see C01): its
    # points still lie on the leading edge
    spans = [(0.0, t1), (t1, t2), None]
    for j, (span, patch) in enumerate(zip(spans, patches[4:7])):
        for r, v in case["q"][2 * j : 2 * j + 2] + [[0.0, 0.3], [1.0, 0.6], [0.4, 0.0], [0.6, 1.0]]:
            p = xyz(patch(r, v))
            zt, zb = top(p[0], p[1]), bot(p[0], p[1])
            q = np.array([p[0], p[1], 0.0])
            if span is not None:
                a, b = span
                ok = min(np.abs(q - le(a + r * (b - a))).max(), np.abs(q - le(b - r * (b - a))).max())
                require(ok < tol, f"part {j} at {r, v}: {ok:.3g} off the leading-edge curve")
            else:
                require(_near(le, q, tol), f"part {j} at {r, v}: off the leading-edge curve")
            d = min(abs(p[2] - ((1 - k) * zt + k * zb)) for k in (v, 1 - v))
            require(d < tol, f"part {j} at {r, v}: height {p[2]:.6g} not between {zt:.6g} and {zb:.6g} in proportion")
        e = sorted(xyz(patch(r, 0.5))[0] for r in (0.0, 1.0))
        lo, hi = span if span is not None else (None, 1.0)
        close(e[1], le(hi)[0], tol, f"part {j}: front end")
        if lo is not None:
            close(e[0], le(lo)[0], tol, f"part {j}: rear end")
        else:
            require(e[0] <= le(t2)[0] + tol, f"part {j}: starts ahead of the part before it")
    ctx.label("given t_B2" if "t2" in s else "default t_B2")


# --------------------------------------------------------------- trailing edge


def flap(case, ctx):
    s = case["s"]
    _, patches, t1, t2 = build(case)
    k = 7 if s["flat"] else 10
    A0, B0 = corners(s)[0], np.array(s["le"][0])
    L, ang = s["flap"]
    fs = {n: wing_thickness(s, n) for n in ("top", "bot")}

    def rim(r, side):
        p = A0 + r * (B0 - A0)
        p[2] = fs[side](p[0], p[1])
        return p

    def far(r):
        m = (rim(r, "top") + rim(r, "bot")) / 2
        return m + np.array([-L * math.cos(ang), 0.0, L * math.sin(ang)])

    # the far edge is straight between its ends
    f0, f1 = far(0.0), far(1.0)
    tol = 1e-8 * size(s)
    for side, patch in (("top", patches[k]), ("bot", patches[k + 1])):
        for r, v in case["q"] + [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]:
            p = xyz(patch(r, v))
            a = v if side == "bot" else 1 - v
            want = (1 - a) * rim(r, side) + a * (f0 + r * (f1 - f0))
            if s["tf"]["bump"] and a not in (0.0, 1.0):
                # a curved rim: only its ends and the far edge are prescribed
                want = (1 - a) * rim(r, side) + a * _far_curve(far, f0, f1, r, patch, side, tol)
            elif s["tf"]["bump"] and a == 1.0:
                want = _far_curve(far, f0, f1, r, patch, side, tol)
            close(p, want, tol, f"{side} of the flap at {r, v}")
    ctx.label("flap" if L else "no flap")
    ctx.label("angled" if ang else "straight")
    if not L:
        ctx.skip("no flap")


def _far_curve(far, f0, f1, r, patch, side, tol):
    """Far edge of a flap behind a curved trailing edge: either the straight
    line or the displaced mean line, both of the stated length and angle at the
    ends."""
    p = xyz(patch(r, 1.0 if side == "bot" else 0.0))
    line = f0 + r * (f1 - f0)
    return line if np.abs(p - line).max() <= np.abs(p - far(r)).max() else far(r)


# ----------------------------------------------------------- the wing as a whole


def whole(case, ctx):
    """An open wing is open along its root only, a closed one nowhere, however
    the leading edge is divided."""
    s = dict(case["s"])
    y0 = s["root"][1]
    n = 0
    for t2 in [None] + case["t2"]:
        v = dict(s)
        v.pop("t2", None)
        if t2 is not None:
            v["t2"] = t2
        c = build_wing(v)
        c._multiprocess = False
        c.generate_patches()
        m = mesh_of(c)
        require(np.isfinite(m).all(), "mesh is not finite")
        e = bad_edges(m)
        if s["close"]:
            require(len(e) == 0, f"closed wing has {len(e)} open or overlapping edges, t_B2={t2}: {e[:1].tolist()}")
        else:
            off = [q for q in e if np.abs(q[:, 1] - y0).max() > 1e-4 * size(s)]
            require(not off, f"{len(off)} open or overlapping edges away from the root, t_B2={t2}: {np.array(off[:1]).tolist()}")
            require(len(e) > 0, "open wing is closed")
        n += 1
    ctx.label("closed" if s["close"] else "open")


@st.composite
def whole_case(draw):
    return {"s": draw(wing_spec(res=(1, 2), bump=True)), "t2": [draw(num(0.1, 0.9))]}


FACETS = [
    Facet("surfaces", wing_case, surfaces, 40, rule="thickness varies over the planform"),
    Facet("surfaces2", wing_case, surfaces, 40, rule="thickness varies over the planform"),
    Facet("edge", wing_case, edge, 25, rule="some point away from kinks"),
    Facet("edge2", wing_case, edge, 25, rule="some point away from kinks"),
    Facet("flat", lambda: wing_case(flat=True), flat, 60, rule="every case"),
    Facet("flap", lambda: wing_case(), flap, 80, rule="the flap has a length"),
    Facet("whole", whole_case, whole, 10, rule="every case"),
    Facet("whole2", whole_case, whole, 10, rule="every case"),
]
