"""C26: evaluating curves and surfaces has no side effects."""

import copy

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import V, build_path, build_surface, num, param, path_spec, surface_spec, xyz, vec
from hv.oracle import close, require

MUT = ["none", "scale", "divide", "normalize", "local", "global"]


def mutate(p, how):
    from hypervehicle.geometry import Vector3

    n, t1, t2 = Vector3(0.0, 1.0, 0.0), Vector3(0.0, 0.0, 1.0), Vector3(1.0, 0.0, 0.0)
    if how == "scale":
        p *= -3.5
    elif how == "divide":
        p /= 0.125
    elif how == "normalize" and abs(p) > 1e-3:
        p.normalize()
    elif how == "local":
        p.transform_to_local_frame(n, t1, t2, Vector3(1.0, 2.0, 3.0))
    elif how == "global":
        p.transform_to_global_frame(n, t1, t2, Vector3(1.0, 2.0, 3.0))


@st.composite
def curve_spec(draw):
    k = draw(st.integers(0, 9))
    base = draw(path_spec())
    if k <= 3:
        return base
    if k == 4:
        return {"k": "sub", "u": base, "t": [draw(param()), draw(param())]}
    if k == 5:
        return {"k": "rev", "u": base}
    if k == 6:
        return {"k": "arclen", "u": base, "n": draw(st.integers(5, 60))}
    if k == 7:
        return {"k": "mean", "u": base, "v": draw(path_spec())}
    if k == 8:
        return {"k": "ellipse", "c": draw(vec(2)), "a": draw(st.one_of(st.just(0.0), num(0.25, 2))), "b": draw(num(0.25, 2)), "side": draw(st.sampled_from(["top", "bot"]))}
    return {"k": "single", "p": [draw(vec(3))]}


def build_curve(s):
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.path import ArcLengthParameterizedPath, Bezier

    k = s["k"]
    if k == "sub":
        return g.SubRangedPath(build_path(s["u"]), *s["t"])
    if k == "rev":
        return g.ReversedPath(build_path(s["u"]))
    if k == "arclen":
        return ArcLengthParameterizedPath(build_path(s["u"]), n=s["n"])
    if k == "mean":
        return g.GeometricMeanPathFunction(build_path(s["u"]), build_path(s["v"]))
    if k == "ellipse":
        return g.ElipsePath(V(s["c"]), s["b"], s["a"], s["side"])
    if k == "single":
        return Bezier([V(s["p"][0])])
    return build_path(s)


@st.composite
def curve_case(draw):
    return {
        "p": draw(curve_spec()),
        "ops": draw(st.lists(st.tuples(param(), st.sampled_from(MUT)).map(list), min_size=2, max_size=8)),
    }


def history(obj, fresh, args_of, ops, length=None):
    """Evaluate in the given order, changing returned points in place; every
    value must equal that of an object evaluated once only."""
    kept = []
    for a, how in ops:
        args = args_of(a)
        p = obj(*args)
        close(xyz(p), xyz(fresh()(*args)), 0, f"value at {args} in the history")
        again = obj(*args)
        close(xyz(again), xyz(p), 0, f"second evaluation at {args}")
        require(again is not p, "two evaluations returned the same vector object")
        before = xyz(p)
        mutate(p, how)
        for q, w in kept:
            close(xyz(q), w, 0, f"a point returned earlier, after {how}")
        kept.append((p, xyz(p)))
        close(xyz(again), before, 0, "the other returned point")
    for a, _ in reversed(ops):
        args = args_of(a)
        close(xyz(obj(*args)), xyz(fresh()(*args)), 0, f"value at {args} afterwards")
    for q, w in kept:
        close(xyz(q), w, 0, "a point returned earlier, at the end")


def curve(case, ctx):
    obj = build_curve(case["p"])
    history(obj, lambda: build_curve(case["p"]), lambda a: (a,), case["ops"])
    if case["p"]["k"] not in ("single",):
        close(obj.length(), build_curve(case["p"]).length(), 0, "length afterwards")
    ctx.label(case["p"]["k"])
    if all(h == "none" for _, h in case["ops"]):
        ctx.skip("nothing changed in place")


@st.composite
def surf_case(draw):
    return {
        "s": draw(surface_spec(depth=3)),
        "ops": draw(
            st.lists(
                st.tuples(st.tuples(param(), param()).map(list), st.sampled_from(MUT)).map(list),
                min_size=2,
                max_size=6,
            )
        ),
    }


def surf(case, ctx):
    obj = build_surface(case["s"])
    history(obj, lambda: build_surface(case["s"]), lambda a: tuple(a), case["ops"])
    ctx.label(case["s"]["k"])
    if all(h == "none" for _, h in case["ops"]):
        ctx.skip("nothing changed in place")


@st.composite
def inputs_case(draw):
    return {
        "p": draw(path_spec()),
        "t": draw(st.lists(param(), min_size=2, max_size=3)),
        "how": draw(st.sampled_from(["scale", "divide", "clear", "append", "reverse"])),
    }


def inputs(case, ctx):
    """Changing the points or the list passed in does not change the curve,
    and evaluating the curve does not change them."""
    from hypervehicle.geometry import Arc, Bezier, Line, Polyline
    from hypervehicle.geometry.path import Spline

    s = case["p"]
    k = s["k"]
    if k == "polyline":
        pts = [build_path(x) for x in s["s"]]
        path = Polyline(pts)
    elif k == "arc":
        a = build_path(s)
        pts = [V(xyz(p)) for p in (a.a, a.b, a.c)]
        path = Arc(*pts)
    else:
        pts = [V(p) for p in s["p"]]
        path = {"line": lambda: Line(*pts), "bezier": lambda: Bezier(pts), "spline": lambda: Spline(pts)}[k]()
    n = len(pts)
    before = [xyz(p) for p in pts] if k != "polyline" else None
    value = [xyz(path(t)) for t in case["t"]]
    path.length()
    require(len(pts) == n, "evaluation changed the list passed in")
    if before is not None:
        for p, b in zip(pts, before):
            close(xyz(p), b, 0, "a defining point after evaluation")
    how = case["how"]
    if how in ("scale", "divide"):
        if k == "polyline":
            how = "clear"
        else:
            for p in pts:
                mutate(p, how)
    if how == "clear":
        pts.clear()
    elif how == "append" and k != "polyline":
        pts.append(V([9.0, 9.0, 9.0]))
    elif how == "reverse":
        pts.reverse()
    for t, v in zip(case["t"], value):
        close(xyz(path(t)), v, 0, f"{k} after the caller's list was changed ({how})")
    ctx.label(k + " " + how)


@st.composite
def functions_case(draw):
    return {
        "s": draw(surface_spec(depth=1)),
        "v": draw(vec(1)),
        "q": draw(st.lists(st.tuples(param(), param()).map(list), min_size=2, max_size=4)),
        "how": draw(st.sampled_from(MUT[1:])),
    }


def functions(case, ctx):
    """A function that returns the same vector object every time, and a source
    surface used by two others, are left alone."""
    from hypervehicle.geometry import geometry as g

    base = build_surface(case["s"])
    const = V(case["v"])
    off = g.OffsetPatchFunction(base, lambda x, y, z=0.0: const)
    mir = g.MirroredPatch(base, axis="y")
    rot = g.RotatedPatch(base, 0.7, axis="z", point=V([1.0, 0.0, 0.5]))
    pt = rot.point
    want = {}
    for name, f in (("base", base), ("off", off), ("mir", mir), ("rot", rot)):
        want[name] = [xyz(f(r, s)) for r, s in case["q"]]
    for r, s in case["q"]:
        for f in (off, rot, mir, base):
            mutate(f(r, s), case["how"])
    close(xyz(const), case["v"], 0, "the vector the user's function returns")
    close(xyz(pt), [1.0, 0.0, 0.5], 0, "the rotation point")
    for name, f in (("rot", rot), ("mir", mir), ("off", off), ("base", base)):
        for (r, s), w in zip(case["q"], want[name]):
            close(xyz(f(r, s)), w, 0, f"{name} after in-place changes")
    dup = copy.deepcopy(off)
    for (r, s), w in zip(case["q"], want["off"]):
        close(xyz(dup(r, s)), w, 0, "deep copy")


FACETS = [
    Facet("curve", curve_case, curve, 200, rule="some returned point is changed in place"),
    Facet("surface", surf_case, surf, 150, rule="some returned point is changed in place"),
    Facet("inputs", inputs_case, inputs, 200, rule="every case"),
    Facet("functions", functions_case, functions, 100, rule="every case"),
]
ASSUMPTIONS = ["in-place changes through the public in-place operations of vectors"]
