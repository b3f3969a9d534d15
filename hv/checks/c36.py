"""C36: geometry does not depend on where and how its definition is placed."""

import numpy as np
from hypothesis import strategies as st

import hv.gen as gen
from hv.checks import c06
from hv.checks.c07 import constructor, rows_match, study_case, tables_of
from hv.comp import build_component, component_spec, composite_spec, mesh_of
from hv.core import Facet
from hv.gen import (
    axis_rot,
    build_motion,
    build_path,
    euler,
    field_spec,
    grid_params,
    num,
    param,
    path_spec,
    ref_field,
    rot,
    surface_spec,
    vec,
    xyz,
)
from hv.oracle import close, require

# ------------------------------------------------------------------ placements


@st.composite
def placement(draw, mirror=True):
    """A rotation about any axis, a displacement up to far away, and possibly
    a reflection or a quarter turn that exchanges the axes."""
    how = draw(st.sampled_from(["turn", "turn", "quarter", "shift"]))
    far = draw(st.sampled_from([1.0, 1.0, 10.0, 100.0]))
    return {
        "e": draw(euler()) if how == "turn" else [90.0 * draw(st.integers(0, 3)) for _ in range(3)] if how == "quarter" else [0.0] * 3,
        "d": [far * x for x in draw(vec(3))],
        "mirror": mirror and draw(st.booleans()),
    }


class Placed:
    def __init__(self, w):
        self.R = rot(w["e"]) @ (np.diag([1.0, -1.0, 1.0]) if w["mirror"] else np.eye(3))
        # exactly into another coordinate plane
        self.R = np.roll(self.R, w.get("roll", 0), axis=0)
        self.d = np.array(w["d"], float)
        self.far = 1.0 + np.abs(self.d).max()

    def __call__(self, p):
        return np.asarray(p, float) @ self.R.T + self.d

    def turn(self, v):
        return np.asarray(v, float) @ self.R.T

    def back(self, p):
        return (np.asarray(p, float) - self.d) @ self.R

    def build(self, f):
        """What f builds, from defining points that are all placed so."""
        from hypervehicle.geometry import Vector3

        old = gen.POINT
        gen.POINT = lambda x, y, z: Vector3(*(float(c) for c in self([x, y, z])))
        try:
            return f()
        finally:
            gen.POINT = old

    def field(self, f):
        """The displacement field, placed likewise."""
        from hypervehicle.geometry import Vector3

        ref = ref_field(f)
        return lambda x, y, z=0.0: Vector3(*(float(c) for c in self.turn(ref(self.back([x, y, z])))))


HERE = {"e": [0.0] * 3, "d": [0.0] * 3, "mirror": False}


def mix(case, ctx):
    w = case["w"]
    ctx.label("reflected" if w["mirror"] else "moved")
    ctx.label("far" if np.abs(w["d"]).max() > 10 else "near")
    if w == {**HERE, "d": w["d"]} and not any(w["d"]):
        ctx.skip("not moved")


# ---------------------------------------------------------------------- curves


@st.composite
def closed_case(draw):
    """Curves that are closed by a last, often short piece."""
    return {**draw(curve_case()), "d": "closed", "gap": draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4, 1e-5]))}


@st.composite
def plane_case(draw, kinds=("line", "bezier", "spline", "arc")):
    """Curves in a plane z = constant, placed in one of the coordinate planes."""
    c = draw(curve_case())
    c["p"] = draw(path_spec(kinds))
    z, roll = draw(num(-2, 2)), draw(st.integers(0, 2))

    def flatten(p):
        if p["k"] == "arc":
            return {**p, "e": [p["e"][0], 0.0, 0.0], "c": [*p["c"][:2], z]}
        if "s" in p:
            return {**p, "s": [flatten(x) for x in p["s"]]}
        return {**p, "p": [[q[0] + 0.3 * q[2], q[1] + 0.7 * q[2], z] for q in p["p"]]}

    c["p"] = flatten(c["p"])
    c["w"]["e"] = [draw(st.one_of(num(-180, 180), st.integers(-4, 4).map(lambda i: 45.0 * i))), 0.0, 0.0]
    c["w"]["d"] = [0.0 if i == (2 + roll) % 3 else x for i, x in enumerate(c["w"]["d"])]
    c["w"]["roll"] = roll
    return c


@st.composite
def curve_case(draw):
    return {
        "gap": draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4])),
        "p": draw(path_spec()),
        "w": draw(placement()),
        "t": [draw(param()) for _ in range(4)],
        "d": draw(st.sampled_from(["plain", "arclength", "sub", "reversed", "offset", "mean", "closed"])),
        "f": draw(field_spec(0.5)),
        "ab": [draw(num(0, 0.4)), draw(num(0.6, 1))],
    }


def derived(case, w):
    from hypervehicle.geometry import Line, Vector3
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.path import ArcLengthParameterizedPath, Polyline

    p, d = w.build(lambda: build_path(case["p"])), case["d"]
    if d == "arclength":
        return ArcLengthParameterizedPath(p, 50)
    if d == "sub":
        return g.SubRangedPath(p, *case["ab"])
    if d == "reversed":
        return g.ReversedPath(p)
    if d == "closed" and case["gap"]:
        # all but closed: the last piece is short
        a, b = p(0.0), p(1.0)
        v = w.turn([0.6 * case["gap"], 0.0, 0.8 * case["gap"]])
        return Polyline([p, Line(b, Vector3(a.x + v[0], a.y + v[1], a.z + v[2]))], closed=True)
    if d == "closed":
        return Polyline([p], closed=True)
    if d in ("offset", "mean"):
        o = g.OffsetPathFunction(p, flat(case["f"], w))
        return o if d == "offset" else g.GeometricMeanPathFunction(p, o)
    return p


def flat(f, w):
    """Offsets of a curve are a function of x and y only: here a constant one."""
    from hypervehicle.geometry import Vector3

    v = w.turn(f["c"])
    return lambda x, y: Vector3(*(float(c) for c in v))


def curves(case, ctx):
    w = Placed(case["w"])
    a, b = derived(case, Placed(HERE)), derived(case, w)
    p = np.array([xyz(a(t)) for t in case["t"] + [0.0, 1.0]])
    q = np.array([xyz(b(t)) for t in case["t"] + [0.0, 1.0]])
    size = w.far + np.abs(p).max()
    what = f"{case['d']} of a {case['p']['k']}"
    close(q, w(p), 1e-9 * size, f"{what} placed elsewhere")
    close(float(b.length()), float(a.length()), 1e-9 * size, f"length of the {what} placed elsewhere")
    ctx.label(case["d"])
    ctx.label(case["p"]["k"])
    mix(case, ctx)


def around(case, ctx):
    """The same curve in all three coordinate planes, turned all the way round
    in each."""
    for roll in range(3):
        for i in range(8):
            w = case["w"]
            w = {**w, "roll": roll, "e": [w["e"][0] + 45.0 * i, 0.0, 0.0], "d": [0.0 if j == (2 + roll) % 3 else x for j, x in enumerate(w["d"])]}
            curves({**case, "w": w}, ctx)


# -------------------------------------------------------------------- surfaces


@st.composite
def surf_case(draw):
    k = draw(st.sampled_from(["coons", "corners", "sweep", "corners"]))
    return {
        "s": draw(surface_spec(depth=0, kinds=[k])),
        "f": draw(field_spec(0.4)) if draw(st.booleans()) else None,
        "w": draw(placement()),
        "at": draw(grid_params(4)),
        "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
    }


def surfaces(case, ctx):
    from hypervehicle.geometry.geometry import OffsetPatchFunction
    from hypervehicle.utilities import surfce_to_stl

    def made(w):
        s = w.build(lambda: gen.build_surface(case["s"]))
        return OffsetPatchFunction(s, w.field(case["f"])) if case["f"] else s

    w = Placed(case["w"])
    a, b = made(Placed(HERE)), made(w)
    p, q = (np.array([xyz(s(*u)) for u in case["at"]]) for s in (a, b))
    size = w.far + np.abs(p).max()
    close(q, w(p), 1e-9 * size, f"{case['s']['k']} placed elsewhere")
    m, n = (np.array(surfce_to_stl(s, *case["n"]).vectors, float).reshape(-1, 3) for s in (a, b))
    require(m.shape == n.shape, f"{len(n) // 3} triangles instead of {len(m) // 3} when placed elsewhere")
    close(n, w(m), 1e-6 * (size + np.abs(m).max()), f"mesh of a {case['s']['k']} placed elsewhere")
    ctx.label(case["s"]["k"] + (" with an offset" if case["f"] else ""))
    mix(case, ctx)


# ------------------------------------------------------------------ components


@st.composite
def comp_case(draw):
    k = draw(st.sampled_from(["swept", "swept", "composite", "ball"]))
    if k == "swept":
        c = draw(component_spec(("swept",)))
    elif k == "composite":
        c = draw(composite_spec(options=False, kinds=("swept",)))
    else:
        c = draw(st.one_of(component_spec(("cube", "sphere")), composite_spec(options=False, kinds=("cube", "sphere", "swept"))))
    w = draw(placement())
    if k == "ball":
        # faces of cubes and spheres stay along the axes
        w = {**w, "e": [0.0] * 3, "mirror": False}
    return {"c": c, "w": w, "at": draw(grid_params(3))}


def components(case, ctx):
    def made(w):
        c = w.build(lambda: build_component(case["c"]))
        c.generate_patches()
        return c

    w = Placed(case["w"])
    a, b = made(Placed(HERE)), made(w)
    p, q = (np.array([xyz(s(*u)) for s in c.patches.values() for u in case["at"]]) for c in (a, b))
    k = case["c"]["k"]
    require(p.shape == q.shape, f"{len(b.patches)} patches instead of {len(a.patches)} of a {k} placed elsewhere")
    size = w.far + np.abs(p).max()
    close(q, w(p), 1e-9 * size, f"surfaces of a {k} placed elsewhere")
    m, n = mesh_of(a).reshape(-1, 3), mesh_of(b).reshape(-1, 3)
    require(m.shape == n.shape, f"{len(n) // 3} triangles instead of {len(m) // 3} of a {k} placed elsewhere")
    close(n, w(m), 1e-6 * (size + np.abs(m).max()), f"mesh of a {k} placed elsewhere")
    ctx.label(k)
    mix(case, ctx)


# ---------------------------------------------------------------------- wings


@st.composite
def turn_case(draw, kinds=("revolved", "ogive", "swept", "sphere", "cube", "composite")):
    """A component moved as a component, and its vehicle moved as a whole, in
    several steps or in one."""
    return {
        "c": draw(component_spec(kinds)),
        "axis": draw(st.sampled_from(["x", "y", "z"])),
        "deg": [draw(num(-170, 170)) for _ in range(draw(st.integers(2, 4)))],
        "v": [draw(vec(3)) for _ in range(draw(st.integers(2, 3)))],
        "at": draw(grid_params(3)),
    }


def steps(case, ctx):
    """Motions in several steps are the motion in one."""
    from hypervehicle.geometry import Vector3

    def made(moves):
        c = build_component(case["c"])
        c.generate_patches()
        for m in moves:
            getattr(c, m[0])(*m[1:])
        return np.array([xyz(s(*u)) for s in c.patches.values() for u in case["at"]])

    one = made([("rotate", sum(case["deg"]), case["axis"])])
    many = made([("rotate", x, case["axis"]) for x in case["deg"]])
    size = 1 + np.abs(one).max() + sum(np.abs(v).max() for v in case["v"])
    close(many, one, 1e-7 * size, f"{case['c']['k']} turned in {len(case['deg'])} steps")
    total = np.sum(case["v"], axis=0)
    one = made([("translate", Vector3(*map(float, total)))])
    many = made([("translate", gen.V(v)) for v in case["v"]])
    close(many, one, 1e-7 * size, f"{case['c']['k']} shifted in {len(case['v'])} steps")
    # a turn after a shift is the turned shift after the turn
    r = axis_rot(case["axis"], case["deg"][0])
    turn = ("rotate", case["deg"][0], case["axis"])
    v = np.array(case["v"][0], float)
    close(
        made([("translate", gen.V(v)), turn]),
        made([turn, ("translate", gen.V(r @ v))]),
        1e-7 * size,
        f"{case['c']['k']} shifted and turned, or turned and shifted",
    )
    ctx.label(case["c"]["k"])


# --------------------------------------------------------------------- results


@st.composite
def mass_case(draw):
    comps = []
    for i in range(draw(st.integers(1, 3))):
        comps.append({"c": draw(component_spec(("swept",), closed=True)), "o": {"name": f"part{i}"}, "d": draw(num(0.25, 4))})
    w = draw(placement(mirror=False))
    w["d"] = [x / max(1.0, np.abs(w["d"]).max() / 3) for x in w["d"]]
    return {"comps": comps, "w": w}


def masses(case, ctx):
    """The results of an analysis move with the bodies."""
    comps = [{**c, "c": c06.outward(c["c"])} for c in case["comps"]]
    w = Placed(case["w"])
    a, b = c06.build(comps), w.build(lambda: c06.build(comps))
    a.generate()
    b.generate()
    if c06.thin([mesh_of(c) for c in a.components]):
        ctx.skip("thin body")
        return
    vol, mass, cog, moi = a.analyse(c06.densities(comps))
    want = (vol, mass, w(cog), w.R @ np.asarray(moi) @ w.R.T)
    L = c06.size(a) + c06.size(b)
    c06.compare(b.analyse(c06.densities(comps)), want, L, "analysis of bodies placed elsewhere")
    close(b.area, a.area, 1e-5 * (a.area + L * L), "area of bodies placed elsewhere")
    ctx.label(f"{len(comps)} bodies")
    mix(case, ctx)


@st.composite
def sens_case(draw):
    c = draw(study_case(named=True, params=(1, 2), comps=(1, 2), analysed=False))
    moves = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            moves.append({"m": "rotate", "deg": draw(num(-170, 170)), "axis": draw(st.sampled_from(["x", "y", "z"]))})
        else:
            moves.append({"m": "translate", "v": draw(vec(3))})
    return {"c": c, "moves": moves}


def sensitivities(case, ctx):
    """Sensitivities are vectors: they turn with the vehicle and are not
    shifted."""
    from hypervehicle.utilities import SensitivityStudy

    c = case["c"]
    make = constructor(c)

    class Moved(make):
        def create_instance(self):
            veh = super().create_instance()
            veh.add_vehicle_transformations([build_motion(m) for m in case["moves"]])
            return veh

    R, d = np.eye(3), np.zeros(3)
    for m in case["moves"]:
        if m["m"] == "rotate":
            r = axis_rot(m["axis"], m["deg"])
            R, d = r @ R, r @ d
        else:
            d = d + np.array(m["v"], float)

    def tables(made):
        s = SensitivityStudy(made, verbosity=0)
        kw = {"overrides": dict(c["over"])} if c["over"] else {}
        s.dvdp(dict(map(tuple, c["P"])), perturbation=c["pert"], write_nominal_stl=False, **kw)
        return tables_of(s)

    plain, moved = tables(make), tables(Moved)
    require(list(plain) == list(moved), f"components {list(moved)} instead of {list(plain)}")
    dps = [abs(v * c["pert"] / 100) for _, v in c["P"]]
    for n, df in plain.items():
        a = np.asarray(df.values, float)
        b = np.asarray(moved[n].values, float)
        require(a.shape[1] == b.shape[1] == 3 + 3 * len(dps), f"table of {n} with {b.shape[1]} columns")
        want = [a[:, :3] @ R.T + d] + [a[:, 3 + 3 * i : 6 + 3 * i] @ R.T for i in range(len(dps))]
        big = max(np.abs(a[:, 3:]).max() * max(dps), 0.0)
        eps = 2e-6 * (1 + np.abs(want[0]).max() + np.abs(a[:, :3]).max() + big)
        tol = np.concatenate([np.full(3, eps)] + [np.full(3, eps / x) for x in dps])
        # vertices in one place are listed once, whichever of them
        rows_match(b, np.concatenate(want, axis=1), tol, f"sensitivities of {n} of a moved vehicle", positions=True)
    ctx.label("+".join(m["m"] for m in case["moves"]))


FACETS = [
    Facet("curves", curve_case, curves, 300, rule="the placement is another one"),
    Facet("plane", plane_case, curves, 150, rule="the placement is another one"),
    Facet("arcs", lambda: plane_case(kinds=("arc",)), around, 30, rule="the placement is another one"),
    Facet("closed", closed_case, curves, 120, rule="the placement is another one"),
    Facet("surfaces", surf_case, surfaces, 150, rule="the placement is another one"),
    Facet("components", comp_case, components, 80, rule="the placement is another one"),
    Facet("steps", turn_case, steps, 80, rule="every case"),
    Facet("steps-wingfin", lambda: turn_case(("wing", "fin")), steps, 5, rule="every case"),
    Facet("masses", mass_case, masses, 40, rule="fat bodies in another placement"),
    Facet("sensitivities", sens_case, sensitivities, 30, rule="every case"),
]
ASSUMPTIONS = [
    "displacements up to 300 on definitions of order one; cubes and spheres, whose faces are along the axes, are only shifted",
]
