"""C20: deforming a surface moves each point by exactly the prescribed amount."""

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import (
    build_curvature,
    build_field,
    build_surface,
    curvature_spec,
    field_spec,
    grid_params,
    ref_curvature,
    ref_field,
    ref_surface,
    surface_spec,
    xyz,
)
from hv.oracle import close, require


@st.composite
def deform_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.booleans()):
            ops.append({"k": "offset", "f": draw(field_spec(0.5))})
        else:
            ops.append({"k": "curved", "c": draw(curvature_spec())})
    return {"s": draw(surface_spec(depth=1)), "ops": ops, "q": draw(grid_params(3))}


def deform(case, ctx):
    from hypervehicle.geometry import geometry as g

    base = build_surface(case["s"])
    q = case["q"] + [[0.0, 0.0], [1.0, 1.0], [0.5, 0.5], [0.0, 1.0]]
    zero = [xyz(base(r, s)) for r, s in q]
    ref = ref_surface(case["s"])
    if ref is not None:
        for (r, s), z in zip(q, zero):
            close(z, ref(r, s), 1e-6, "undeformed surface")
    chain, want = [base], [zero]
    for op in case["ops"]:
        if op["k"] == "offset":
            f = ref_field(op["f"])
            chain.append(g.OffsetPatchFunction(chain[-1], build_field(op["f"])))
            want.append([p + f(p) for p in want[-1]])
        else:
            f = ref_curvature(op["c"])
            d, fun, dash = build_curvature(op["c"])
            chain.append(g.CurvedPatch(chain[-1], direction=d, fun=fun, fun_dash=dash))
            want.append([f(p) for p in want[-1]])
    # every stage, the undeformed one included, still is what it was
    for k in list(range(len(chain) - 1, -1, -1)) + [len(chain) - 1]:
        for (r, s), w in zip(q, want[k]):
            tol = 1e-8 * (1 + np.abs(w).max()) + 1e-8 * (1 + max(np.abs(z).max() for z in zero))
            close(xyz(chain[k](r, s)), w, tol * 10, f"stage {k} of {[o['k'] for o in case['ops']]}")
    ctx.label("then ".join(o["k"] + " " for o in case["ops"]).strip())
    moved = max(np.abs(a - b).max() for a, b in zip(want[-1], zero))
    if moved < 1e-9:
        ctx.skip("nothing moved")


@st.composite
def zero_case(draw):
    return {
        "s": draw(surface_spec(depth=2)),
        "d": draw(st.sampled_from(["x", "y"])),
        "q": draw(grid_params(3)),
        "f": draw(field_spec(0.5)),
    }


def zero(case, ctx):
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry import geometry as g

    base = build_surface(case["s"])
    q = case["q"] + [[0.0, 1.0], [1.0, 0.0]]
    z = [xyz(base(r, s)) for r, s in q]
    nil = Vector3(0.0, 0.0, 0.0)
    off = g.OffsetPatchFunction(base, lambda x, y, z=0.0: nil)
    cur = g.CurvedPatch(base, direction=case["d"], fun=lambda x, y: 0.0, fun_dash=lambda x, y: 0.0)
    # an offset and its opposite at the displaced point cancel for a constant
    c = np.array(case["f"]["c"])
    fwd = g.OffsetPatchFunction(base, lambda x, y, z=0.0: Vector3(*map(float, c)))
    both = g.OffsetPatchFunction(fwd, lambda x, y, z=0.0: Vector3(*map(float, -c)))
    for (r, s), w in zip(q, z):
        tol = 1e-9 * (1 + np.abs(w).max())
        close(xyz(off(r, s)), w, tol, "zero offset")
        close(xyz(cur(r, s)), w, tol, f"zero curvature along {case['d']}")
        close(xyz(fwd(r, s)), w + c, tol * 10, "constant offset")
        close(xyz(both(r, s)), w, tol * 10, "offset and back")
    close([nil.x, nil.y, nil.z], [0, 0, 0], 0, "the user's vector")


@st.composite
def normal_case(draw):
    c = draw(curvature_spec())
    return {"c": c, "s": draw(surface_spec(depth=0)), "q": draw(grid_params(4))}


def normal(case, ctx):
    """The height above the curved reference, measured along its normal at the
    original station, is the original height; other coordinates are kept."""
    from hypervehicle.geometry import geometry as g

    base = build_surface(case["s"])
    d, fun, dash = build_curvature(case["c"])
    cur = g.CurvedPatch(base, direction=d, fun=fun, fun_dash=dash)
    i, o = (0, 1) if d == "x" else (1, 0)
    hit = False
    for r, s in case["q"]:
        p, n = xyz(base(r, s)), xyz(cur(r, s))
        foot = np.array(p)
        foot[2] = fun(p[0], p[1])
        v = n - foot
        m = dash(p[0], p[1])
        tol = 1e-8 * (1 + np.abs(p).max()) ** 2
        require(abs(v[o]) <= tol, "coordinate across the curvature direction changed")
        close(abs(p[2]), np.linalg.norm(v), tol, "height along the normal")
        close(v[i] + m * v[2], 0.0, tol * (1 + abs(m)), "displacement not normal to the curve")
        if abs(p[2]) > 1e-6:
            require(np.sign(v[2]) == np.sign(p[2]), "height changed its side")
            hit = hit or abs(m) > 1e-6
    if not hit:
        ctx.skip("no height or no slope")


@st.composite
def special_case(draw):
    return {
        "s": draw(surface_spec(depth=1)),
        "d": draw(st.sampled_from(["x", "y"])),
        "q": draw(grid_params(2)),
        "a": draw(st.sampled_from([-1.0, -0.25, 0.25, 0.5, 2.0])),
        "b": draw(st.sampled_from([0.0, 0.5, -0.125])),
        "at": draw(st.sampled_from(["root", "flat", "both"])),
    }


def special(case, ctx):
    """Stations at which the displacement, its slope or both vanish exactly."""
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry import geometry as g

    base = build_surface(case["s"])
    a, b, d, at = case["a"], case["b"], case["d"], case["at"]
    i = 0 if d == "x" else 1
    q = case["q"] + [[0.5, 0.25], [0.75, 1.0]]
    pts = [xyz(base(r, s)) for r, s in q]
    x0 = float(pts[0][i])

    def fun(x, y):
        u = (x, y)[i] - x0
        return {"root": a * u + b * u * u, "flat": 0.25 + a * u * u, "both": a * u * u}[at]

    def dash(x, y):
        u = (x, y)[i] - x0
        return {"root": a + 2 * b * u, "flat": 2 * a * u, "both": 2 * a * u}[at]

    cur = g.CurvedPatch(base, direction=d, fun=fun, fun_dash=dash)
    off = g.OffsetPatchFunction(base, lambda x, y, z: Vector3(fun(x, y), a * (z - pts[0][2]), dash(x, y)))
    high = False
    for (r, s), p in zip(q, pts):
        f, m = fun(p[0], p[1]), dash(p[0], p[1])
        n = np.zeros(3)
        n[i], n[2] = -m, 1.0
        want = np.array([p[0], p[1], f]) + p[2] * n / np.linalg.norm(n)
        tol = 1e-8 * (1 + np.abs(p).max()) ** 2
        close(xyz(cur(r, s)), want, tol, f"curved along {d} with {at} at {p[i]}")
        close(xyz(off(r, s)), p + [f, a * (p[2] - pts[0][2]), m], tol, "offset field with a root")
        high = high or abs(p[2]) > 1e-6
    ctx.label(at + " " + d)
    if not high:
        ctx.skip("no height")


FACETS = [
    Facet("special", special_case, special, 150, rule="a sampled point has height"),
    Facet("deform", deform_case, deform, 300, rule="some sampled point moved"),
    Facet("zero", zero_case, zero, 150, rule="every case"),
    Facet("normal", normal_case, normal, 200, rule="a sampled point has height and slope"),
]
ASSUMPTIONS = ["offset fields and curvature functions are smooth and of order one"]
