"""Generators of plain JSON-able geometry descriptions, builders that turn a
description into library objects, and independent reference evaluators.

The reference evaluators share no code with the library: Bezier curves use
Bernstein polynomials, splines solve the natural-spline system directly, arcs
use an explicit orthonormal frame, and so on.
"""

import math

import numpy as np
from hypothesis import strategies as st

# ----------------------------------------------------------------- numbers


def num(lo, hi, digits=3):
    """A number in [lo, hi]: either on a coarse or on a fine decimal grid."""
    f = 10**digits
    options = []
    a, b = math.ceil(lo * 4), math.floor(hi * 4)
    if b - a >= 2:
        options.append(st.integers(a, b).map(lambda i: i / 4))
    options.append(
        st.integers(math.ceil(lo * f), math.floor(hi * f)).map(lambda i: i / f)
    )
    return st.one_of(*options)


def vec(r=3.0):
    c = num(-r, r)
    return st.tuples(c, c, c).map(list)


def param():
    """A parameter in [0, 1], ends and centre included often, and places close
    to but not on a station i / n."""
    return st.one_of(
        st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]),
        st.integers(0, 10000).map(lambda i: i / 10000),
        st.tuples(
            st.sampled_from([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 0.25, 0.75]),
            st.sampled_from([1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 1e-5]),
            st.booleans(),
        ).map(lambda x: x[0] + x[1] if (x[2] or x[0] == 0) and x[0] < 1 else x[0] - x[1]),
    )


def angle_deg(lo=-360, hi=360):
    return st.one_of(
        st.integers(lo // 15, hi // 15).map(lambda i: 15.0 * i),
        num(lo, hi, 2),
        st.integers(lo, hi),
    )


def step(r=2.0, least=0.25):
    """A displacement of length at least `least`, by construction."""

    def fix(v):
        n = math.sqrt(sum(c * c for c in v))
        if n >= least:
            return list(v)
        return [v[0] + 2 * least, v[1] + least, v[2]]

    return vec(r).map(fix)


def euler():
    a = angle_deg(-180, 180)
    return st.tuples(a, a, a).map(list)


def rot(e):
    a, b, c = (math.radians(v) for v in e)
    rz = np.array(
        [[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]]
    )
    ry = np.array(
        [[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]]
    )
    rx = np.array(
        [[1, 0, 0], [0, math.cos(c), -math.sin(c)], [0, math.sin(c), math.cos(c)]]
    )
    return rz @ ry @ rx


def axis_rot(axis, degrees):
    """Right-hand rotation matrix about a named axis."""
    t = math.radians(degrees)
    c, s = math.cos(t), math.sin(t)
    axis = axis.lower()
    if axis == "x":
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    if axis == "y":
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


# ------------------------------------------------------------------- paths


@st.composite
def line_spec(draw, r=3.0, start=None):
    p = start if start is not None else draw(vec(r))
    d = draw(step())
    return {"k": "line", "p": [p, [a + b for a, b in zip(p, d)]]}


@st.composite
def bezier_spec(draw, r=3.0, start=None, lo=3, hi=5):
    p = [start if start is not None else draw(vec(r))]
    for _ in range(draw(st.integers(lo - 1, hi - 1))):
        d = draw(step(1.5))
        p.append([a + b for a, b in zip(p[-1], d)])
    return {"k": "bezier", "p": p}


@st.composite
def arc_spec(draw, r=3.0, small=False):
    return {
        "k": "arc",
        "c": draw(vec(r)),
        "r": draw(num(0.25, 4)) * (draw(st.sampled_from([1, 1, 0.1, 0.01, 0.003])) if small else 1),
        "e": draw(euler()),
        "ang": draw(st.one_of(st.integers(1, 11).map(lambda i: 15.0 * i), num(5, 170))),
    }


@st.composite
def polyline_spec(draw, lo=2, hi=4, kinds=("line", "bezier", "arc")):
    n = draw(st.integers(lo, hi))
    p = draw(vec(2))
    segs = []
    for _ in range(n):
        k = draw(st.sampled_from(kinds))
        if k == "line":
            s = draw(line_spec(start=p))
        elif k == "bezier":
            s = draw(bezier_spec(start=p))
        else:
            s = draw(arc_spec())
            a = ref_path(s)(0.0)
            s["c"] = [float(c + q - w) for c, q, w in zip(s["c"], p, a)]
        segs.append(s)
        p = [float(v) for v in ref_path(s)(1.0)]
    return {"k": "polyline", "s": segs}


@st.composite
def spline_spec(draw, lo=3, hi=6):
    p = [draw(vec(2))]
    for _ in range(draw(st.integers(lo - 1, hi - 1))):
        d = draw(step(1.5))
        p.append([a + b for a, b in zip(p[-1], d)])
    return {"k": "spline", "p": p}


def path_spec(kinds=("line", "bezier", "polyline", "spline", "arc")):
    table = {
        "line": line_spec,
        "bezier": bezier_spec,
        "polyline": polyline_spec,
        "spline": spline_spec,
        "arc": arc_spec,
    }
    return st.sampled_from(kinds).flatmap(lambda k: table[k]())


# the type in which coordinates are written; C31 uses others
COORDINATE = float

# classes to put round curves, surfaces, functions and points; C34 has some
WRAP_PATH = WRAP_SURFACE = WRAP_FUNCTION = POINT = None


def V(p):
    from hypervehicle.geometry import Vector3

    return (POINT or Vector3)(COORDINATE(p[0]), COORDINATE(p[1]), COORDINATE(p[2]))


def user(f):
    return WRAP_FUNCTION(f) if WRAP_FUNCTION else f


def xyz(v):
    return np.array([float(v.x), float(v.y), float(v.z)])


def build_path(s):
    p = plain_path(s)
    return WRAP_PATH(p) if WRAP_PATH else p


def plain_path(s):
    from hypervehicle.geometry import Arc, Bezier, Line, Polyline
    from hypervehicle.geometry.path import Spline

    k = s["k"]
    if k == "line":
        return Line(V(s["p"][0]), V(s["p"][1]))
    if k == "bezier":
        return Bezier([V(p) for p in s["p"]])
    if k == "arc":
        c, r, m = np.array(s["c"]), s["r"], rot(s["e"])
        t = math.radians(s["ang"])
        a = c + r * m[:, 0]
        b = c + r * (math.cos(t) * m[:, 0] + math.sin(t) * m[:, 1])
        return Arc(V(a), V(b), V(c))
    if k == "polyline":
        return Polyline([build_path(x) for x in s["s"]])
    if k == "spline":
        return Spline([V(p) for p in s["p"]])
    raise KeyError(k)


def bernstein(points):
    pts = np.array(points, float)
    n = len(pts) - 1
    co = [math.comb(n, i) for i in range(n + 1)]

    def f(t):
        w = np.array([co[i] * (1 - t) ** (n - i) * t**i for i in range(n + 1)])
        return w @ pts

    return f


def chain(funcs, lengths):
    total = sum(lengths)
    tv = np.concatenate([[0.0], np.cumsum(lengths) / total])

    def f(t):
        for i in range(len(funcs)):
            if t <= tv[i + 1] or i == len(funcs) - 1:
                return funcs[i]((t - tv[i]) / (tv[i + 1] - tv[i]))

    f.breaks = tv
    return f


def chord_length(f, n):
    ps = [f(i / n) for i in range(n + 1)]
    return float(sum(np.linalg.norm(b - a) for a, b in zip(ps, ps[1:])))


def natural_segments(points):
    """Cubic Bezier control points of the natural spline through points."""
    p = np.array(points, float)
    m = len(p) - 1
    a = np.zeros((m + 1, m + 1))
    rhs = np.zeros((m + 1, 3))
    a[0, 0] = a[m, m] = 1.0
    rhs[0], rhs[m] = p[0], p[m]
    for i in range(1, m):
        a[i, i - 1] = a[i, i + 1] = 1.0
        a[i, i] = 4.0
        rhs[i] = 6.0 * p[i]
    d = np.linalg.solve(a, rhs)
    return [
        [p[i], (2 * d[i] + d[i + 1]) / 3, (d[i] + 2 * d[i + 1]) / 3, p[i + 1]]
        for i in range(m)
    ]


def ref_path(s):
    k = s["k"]
    if k == "line":
        a, b = np.array(s["p"][0], float), np.array(s["p"][1], float)
        return lambda t: a + (b - a) * t
    if k == "bezier":
        return bernstein(s["p"])
    if k == "arc":
        c, r, m, w = np.array(s["c"]), s["r"], rot(s["e"]), math.radians(s["ang"])
        return lambda t: c + r * (
            math.cos(w * t) * m[:, 0] + math.sin(w * t) * m[:, 1]
        )
    if k == "polyline":
        fs = [ref_path(x) for x in s["s"]]
        return chain(fs, [ref_sampled_length(x) for x in s["s"]])
    if k == "spline":
        fs = [bernstein(x) for x in natural_segments(s["p"])]
        return chain(fs, [chord_length(f, 20) for f in fs])
    raise KeyError(k)


def ref_sampled_length(s):
    """Length as the library documents it: exact for lines and arcs, sampled
    chords for free-form curves."""
    k = s["k"]
    if k == "line":
        return float(np.linalg.norm(np.subtract(s["p"][1], s["p"][0])))
    if k == "arc":
        return s["r"] * math.radians(s["ang"])
    if k == "bezier":
        return chord_length(ref_path(s), 20)
    if k == "polyline":
        return sum(ref_sampled_length(x) for x in s["s"])
    if k == "spline":
        return sum(
            chord_length(bernstein(x), 20) for x in natural_segments(s["p"])
        )
    raise KeyError(k)


def ref_true_length(s):
    k = s["k"]
    if k in ("line", "arc"):
        return ref_sampled_length(s)
    if k == "polyline":
        return sum(ref_true_length(x) for x in s["s"])
    if k == "bezier":
        return chord_length(ref_path(s), 400)
    return sum(chord_length(bernstein(x), 400) for x in natural_segments(s["p"]))


def path_scale(s):
    if s["k"] == "arc":
        return float(np.abs(s["c"]).max() + s["r"])
    if s["k"] == "polyline":
        return max(path_scale(x) for x in s["s"])
    return float(np.abs(s["p"]).max()) + 1.0


# ---------------------------------------------------------------- functions


@st.composite
def field_spec(draw, mag=0.5, linear=True):
    """A smooth vector field c + A x + q * (products)."""
    c = [draw(num(-mag, mag)) for _ in range(3)]
    if not linear or draw(st.integers(0, 2)) == 0:
        a = [0.0] * 9
        q = [0.0] * 3
    else:
        a = [draw(num(-mag / 2, mag / 2)) for _ in range(9)]
        q = [draw(num(-0.1, 0.1)) for _ in range(3)]
    return {"c": c, "a": a, "q": q}


def ref_field(f):
    c = np.array(f["c"])
    a = np.array(f["a"]).reshape(3, 3)
    q = np.array(f["q"])

    def fun(p):
        x, y, z = p
        return c + a @ p + q * np.array([y * z, x * z, x * y])

    return fun


def build_field(f):
    ref = ref_field(f)

    def fun(x, y, z=0.0):
        return V(ref(np.array([x, y, z], float)))

    return user(fun)


@st.composite
def curvature_spec(draw):
    """A quadratic reference curve in x or in y with its derivative."""
    return {
        "d": draw(st.sampled_from(["x", "y"])),
        "k": [draw(num(-0.5, 0.5)), draw(num(-0.5, 0.5)), draw(num(-0.3, 0.3))],
    }


def build_curvature(c):
    k0, k1, k2 = c["k"]
    if c["d"] == "x":
        f = lambda x, y: k0 + k1 * x + k2 * x * x
        g = lambda x, y: k1 + 2 * k2 * x
    else:
        f = lambda x, y: k0 + k1 * y + k2 * y * y
        g = lambda x, y: k1 + 2 * k2 * y
    return (c["d"], user(f), user(g))


def ref_curvature(c):
    k0, k1, k2 = c["k"]
    i = 0 if c["d"] == "x" else 1

    def fun(p):
        u = p[i]
        h = k0 + k1 * u + k2 * u * u
        m = k1 + 2 * k2 * u
        n = np.hypot(1.0, m)
        q = np.array(p, float)
        q[i] = u - p[2] * m / n
        q[2] = h + p[2] / n
        return q

    return fun


# ----------------------------------------------------------------- motions


@st.composite
def motion_spec(draw):
    if draw(st.booleans()):
        return {
            "m": "rotate",
            "deg": draw(angle_deg(-360, 360)),
            "axis": draw(st.sampled_from(["x", "y", "z"])),
        }
    if draw(st.integers(0, 3)) == 0:
        return {"m": "move_by", "f": draw(field_spec(0.4))}
    return {"m": "translate", "v": draw(vec(3))}


def build_motion(m):
    if m["m"] == "rotate":
        return ("rotate", m["deg"], m["axis"])
    if m["m"] == "move_by":
        return ("translate", build_field(m["f"]))
    return ("translate", V(m["v"]))


def ref_motion(m):
    if m["m"] == "rotate":
        r = axis_rot(m["axis"], m["deg"])
        return lambda p: r @ p
    if m["m"] == "move_by":
        f = ref_field(m["f"])
        return lambda p: p + f(p)
    v = np.array(m["v"], float)
    return lambda p: p + v


def is_rigid(m):
    return m["m"] != "move_by"


# ---------------------------------------------------------------- surfaces


@st.composite
def edges_spec(draw, kinds=("line", "bezier", "polyline")):
    """Four connected boundary curves: south, east, north, west."""
    p00 = draw(vec(1))
    p10 = [a + b for a, b in zip(p00, [draw(num(1, 4)), draw(num(-1, 1)), draw(num(-1, 1))])]
    p01 = [a + b for a, b in zip(p00, [draw(num(-1, 1)), draw(num(1, 4)), draw(num(-1, 1))])]
    p11 = [a + b for a, b in zip(p10, [draw(num(-1, 1)), draw(num(1, 4)), draw(num(-1, 1))])]

    def between(a, b):
        k = draw(st.sampled_from(kinds))
        if k == "line":
            return {"k": "line", "p": [a, b]}
        mids = []
        for j in range(draw(st.integers(1, 2))):
            w = (j + 1) / 3
            mids.append(
                [x + (y - x) * w + d for x, y, d in zip(a, b, draw(vec(0.5)))]
            )
        pts = [a] + mids + [b]
        if k == "bezier":
            return {"k": "bezier", "p": pts}
        return {
            "k": "polyline",
            "s": [{"k": "line", "p": [x, y]} for x, y in zip(pts, pts[1:])],
        }

    return {
        "south": between(p00, p10),
        "east": between(p10, p11),
        "north": between(p01, p11),
        "west": between(p00, p01),
    }


@st.composite
def surface_spec(draw, depth=2, kinds=None):
    base = kinds or ["coons", "corners", "cone", "revolved", "sphere", "cube", "sweep"]
    k = draw(st.sampled_from(base))
    if k == "coons":
        s = {"k": k, "e": draw(edges_spec())}
    elif k == "corners":
        e = draw(edges_spec(kinds=("line",)))
        s = {
            "k": k,
            "p": [e["south"]["p"][0], e["south"]["p"][1], e["north"]["p"][1], e["north"]["p"][0]],
        }
    elif k == "cone":
        a0 = draw(angle_deg(-180, 180))
        s = {
            "k": k,
            "x": [draw(num(-2, 2)), draw(num(2.25, 5))],
            "r": [draw(num(0, 2)), draw(num(0.25, 2))],
            "a": [a0, a0 + draw(num(20, 300))],
        }
    elif k == "revolved":
        a0 = draw(angle_deg(-180, 180))
        s = {
            "k": k,
            "line": draw(path_spec(("line", "bezier", "polyline"))),
            "a": [a0, a0 + draw(num(20, 300))],
        }
    elif k in ("sphere", "cube"):
        s = {
            "k": k,
            "r": draw(num(0.25, 3)),
            "c": draw(vec(2)),
            "face": draw(
                st.sampled_from(["east", "west", "south", "north", "bottom", "top"])
            ),
        }
    elif k == "sweep":
        s = {"k": k, "edges": [draw(path_spec(("line", "bezier"))) for _ in range(draw(st.integers(2, 4)))]}
    for _ in range(draw(st.integers(0, depth))):
        w = draw(st.sampled_from(["rotated", "mirrored", "offset", "curved"]))
        if w == "rotated":
            s = {
                "k": w,
                "u": s,
                "deg": draw(angle_deg(-360, 360)),
                "axis": draw(st.sampled_from(["x", "y", "z", "X", "Y", "Z"])),
                "pt": draw(vec(2)),
            }
        elif w == "mirrored":
            s = {"k": w, "u": s, "axis": draw(st.sampled_from(["x", "y", "z", "X", "Y", "Z"]))}
        elif w == "offset":
            s = {"k": w, "u": s, "f": draw(field_spec(0.4))}
        else:
            s = {"k": w, "u": s, "c": draw(curvature_spec())}
    return s


def build_surface(s):
    p = plain_surface(s)
    return WRAP_SURFACE(p) if WRAP_SURFACE else p


def plain_surface(s):
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.surface import CoonsPatch

    k = s["k"]
    if k == "coons":
        return CoonsPatch(**{n: build_path(p) for n, p in s["e"].items()})
    if k == "corners":
        p = [V(q) for q in s["p"]]
        return CoonsPatch(p00=p[0], p10=p[1], p11=p[2], p01=p[3])
    if k == "cone":
        a = [math.radians(v) for v in s["a"]]
        return g.ConePatch(s["x"][0], s["x"][1], s["r"][0], s["r"][1], a[0], a[1])
    if k == "revolved":
        a = [math.radians(v) for v in s["a"]]
        return g.RevolvedPatch(build_path(s["line"]), a[0], a[1])
    if k == "sphere":
        return g.SpherePatch(s["r"], V(s["c"]), s["face"])
    if k == "cube":
        return g.CubePatch(s["r"], V(s["c"]), s["face"])
    if k == "sweep":
        return g.SweptPatchfromEdges([build_path(p) for p in s["edges"]])
    u = build_surface(s["u"])
    if k == "rotated":
        return g.RotatedPatch(u, math.radians(s["deg"]), axis=s["axis"], point=V(s["pt"]))
    if k == "mirrored":
        return g.MirroredPatch(u, axis=s["axis"])
    if k == "offset":
        return g.OffsetPatchFunction(u, build_field(s["f"]))
    if k == "curved":
        d, f, fd = build_curvature(s["c"])
        return g.CurvedPatch(u, direction=d, fun=f, fun_dash=fd)
    raise KeyError(k)


FACE_AXIS = {
    "east": (0, 1.0),
    "west": (0, -1.0),
    "north": (1, 1.0),
    "south": (1, -1.0),
    "top": (2, 1.0),
    "bottom": (2, -1.0),
}


def ref_coons(e):
    S, E, N, W = (ref_path(e[n]) for n in ("south", "east", "north", "west"))
    p00, p10, p01, p11 = S(0.0), S(1.0), N(0.0), N(1.0)

    def f(r, s):
        return (
            (1 - s) * S(r)
            + s * N(r)
            + (1 - r) * W(s)
            + r * E(s)
            - (1 - r) * (1 - s) * p00
            - (1 - r) * s * p01
            - r * (1 - s) * p10
            - r * s * p11
        )

    return f


def ref_surface(s):
    """Reference evaluation; None for shapes whose parameterisation is not part
    of the contract (cube and sphere faces)."""
    k = s["k"]
    if k == "coons":
        return ref_coons(s["e"])
    if k == "corners":
        p = np.array(s["p"], float)
        return lambda r, t: (
            (1 - r) * (1 - t) * p[0] + r * (1 - t) * p[1] + r * t * p[2] + (1 - r) * t * p[3]
        )
    if k == "cone":
        x, rr, a = s["x"], s["r"], [math.radians(v) for v in s["a"]]

        def f(r, t):
            w = a[0] + (a[1] - a[0]) * t
            q = rr[0] + (rr[1] - rr[0]) * r
            return np.array([x[0] + (x[1] - x[0]) * r, q * math.cos(w), q * math.sin(w)])

        return f
    if k == "revolved":
        line, a = ref_path(s["line"]), [math.radians(v) for v in s["a"]]

        def f(r, t):
            w = a[0] + (a[1] - a[0]) * t
            return axis_rot("x", -math.degrees(w)) @ line(r)

        return f
    if k in ("sphere", "cube"):
        return None
    if k == "sweep":
        es = [ref_path(p) for p in s["edges"]]

        def f(r, t):
            u = r * (len(es) - 1)
            i = min(int(math.floor(u + 1e-12)), len(es) - 2)
            w = u - i
            return (1 - w) * es[i](t) + w * es[i + 1](t)

        return f
    u = ref_surface(s["u"])
    if u is None:
        return None
    w = ref_wrap(s)
    return lambda r, t: w(u(r, t))


def ref_wrap(s):
    """The map that a wrapper applies to points of the wrapped surface."""
    k = s["k"]
    if k == "rotated":
        m, p = axis_rot(s["axis"], s["deg"]), np.array(s["pt"], float)
        return lambda q: p + m @ (q - p)
    if k == "mirrored":
        d = np.ones(3)
        d["xyz".index(s["axis"].lower())] = -1
        return lambda q: d * q
    if k == "offset":
        f = ref_field(s["f"])
        return lambda q: q + f(q)
    if k == "curved":
        return ref_curvature(s["c"])
    raise KeyError(k)


def grid_params(n=3):
    return st.lists(st.tuples(param(), param()).map(list), min_size=n, max_size=n)
