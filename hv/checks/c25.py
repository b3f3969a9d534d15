"""C25: vector arithmetic obeys the laws of three-dimensional space."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import V, euler, num, rot, vec, xyz
from hv.oracle import close, must_raise, require


def scalar():
    return st.one_of(num(-5, 5), st.integers(-4, 4))


@st.composite
def algebra_case(draw):
    return {
        "u": draw(st.one_of(vec(50), vec(2))),
        "v": draw(st.one_of(vec(50), vec(2))),
        "w": draw(vec(5)),
        "size": draw(st.sampled_from([1, 1, 1e-4, 1e3])),
        "k": draw(scalar()),
        "ints": draw(st.booleans()),
        "np": draw(st.booleans()),
    }


def mk(p, case):
    from hypervehicle.geometry import Vector3

    if case["ints"]:
        return Vector3(*(int(round(c)) for c in p))
    if case["np"]:
        return Vector3.from_coordinates(np.array(p, float))
    return Vector3(*p)


def algebra(case, ctx):
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry.vector import cross_product

    if case["size"] != 1 and not case["ints"]:
        case = {**case, **{n: [case["size"] * x for x in case[n]] for n in "uvw"}}
        ctx.label("small" if case["size"] < 1 else "large")
    u, v, w = (mk(case[n], case) for n in "uvw")
    a, b, c = xyz(u), xyz(v), xyz(w)
    k = case["k"]
    if case["ints"]:
        a0 = [int(round(x)) for x in case["u"]]
    else:
        a0 = case["u"]
    close(a, a0, 0, "components of a new vector")
    close(u.vec, a, 1e-12 * (1 + np.abs(a).max()), "vec")
    size = min(case["size"], 1) if not case["ints"] else 1
    one = 1e-12 * (size + np.abs(np.concatenate([a, b, c])).max())
    tol = 1e-12 * (size + np.abs(np.concatenate([a, b, c])).max()) ** 2
    close(xyz(u + v), a + b, one, "u + v")
    close(xyz(u - v), a - b, one, "u - v")
    close(xyz(-u), -a, 0, "-u")
    close(xyz(u * k), a * k, 10 * one, "u * k")
    close(xyz(k * u), a * k, 10 * one, "k * u")
    if abs(k) > 1e-2:
        close(xyz(u / k), a / k, one * 100, "u / k")
    close(u.dot(v), a @ b, tol, "dot")
    close(u.dot(v), v.dot(u), tol, "dot symmetric")
    x = cross_product(u, v)
    close(xyz(x), np.cross(a, b), tol, "cross product")
    close(xyz(cross_product(v, u)), -np.cross(a, b), tol, "cross antisymmetric")
    close(abs(u), np.linalg.norm(a), one, "magnitude")
    close(u.norm, np.linalg.norm(a), one, "norm")
    close(xyz(u + v + w), a + b + c, one, "sum of three")
    close(xyz(Vector3(u)), a, 0, "copy")
    if np.linalg.norm(a) > 1e-2 * size:
        close(xyz(u.unit), a / np.linalg.norm(a), 1e-9, "unit")
        close(abs(u.unit), 1.0, 1e-9, "unit magnitude")
    else:
        ctx.label("short vector")
    # nothing above may have changed the operands
    close(xyz(u), a, 0, "left operand after arithmetic")
    close(xyz(v), b, 0, "right operand after arithmetic")
    close(xyz(w), c, 0, "third operand after arithmetic")
    if not np.any(a) or not np.any(b):
        ctx.skip("zero vector")


@st.composite
def inplace_case(draw):
    return {
        "u": draw(vec(20)),
        "ops": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["mul", "div", "normalize", "add", "sub", "copy"]),
                    st.one_of(num(0.25, 3), num(-3, -0.25), st.integers(1, 4)),
                    vec(3),
                ).map(list),
                min_size=1,
                max_size=6,
            )
        ),
    }


def inplace(case, ctx):
    """A list of names for vectors, modified in place or rebound: the model is
    a list of arrays."""
    from hypervehicle.geometry import Vector3

    first = V(case["u"])
    objs, model = [first, Vector3(first)], [xyz(first), xyz(first)]
    for op, k, p in case["ops"]:
        o = objs[0]
        q = V(p)
        if op == "mul":
            o *= k
            require(o is objs[0], "*= returned another vector")
            model[0] = model[0] * k
        elif op == "div":
            o /= k
            require(o is objs[0], "/= returned another vector")
            model[0] = model[0] / k
        elif op == "normalize":
            n = np.linalg.norm(model[0])
            if n < 1e-2:
                continue
            o.normalize()
            model[0] = model[0] / n
        elif op == "add":
            objs.insert(0, o + q)
            model.insert(0, model[0] + p)
        elif op == "sub":
            objs.insert(0, o - q)
            model.insert(0, model[0] - p)
        else:
            objs.insert(0, Vector3(o))
            model.insert(0, model[0].copy())
        close(xyz(q), p, 0, "operand after " + op)
        for i, (x, m) in enumerate(zip(objs, model)):
            close(xyz(x), m, 1e-9 * (1 + np.abs(m).max()), f"vector {i} after {op}")
        ctx.label(op)


@st.composite
def frame_case(draw):
    return {
        "u": draw(vec(10)),
        "v": draw(vec(10)),
        "e": draw(euler()),
        "c": draw(st.one_of(st.none(), vec(5), vec(5).map(lambda p: [1e-4 * x for x in p]))),
        "global_first": draw(st.booleans()),
    }


def frame(case, ctx):
    m = rot(case["e"])
    n, t1, t2 = (V(m[:, i]) for i in range(3))
    c = V(case["c"]) if case["c"] is not None else None
    c0 = np.array(case["c"] if case["c"] is not None else [0, 0, 0], float)
    args = (n, t1, t2) if c is None else (n, t1, t2, c)
    res = []
    for name in "uv":
        a = V(case[name])
        p = np.array(case[name], float)
        into = m.T @ (p - c0)
        out = m @ p + c0
        if case["global_first"]:
            r = a.transform_to_global_frame(*args)
            close(xyz(a), out, 1e-9, "global frame coordinates (in place)")
            close(xyz(r), out, 1e-9, "global frame coordinates (returned)")
            res.append(xyz(a))
            a.transform_to_local_frame(*args)
        else:
            r = a.transform_to_local_frame(*args)
            close(xyz(r), into, 1e-9, "local frame coordinates (returned)")
            close(xyz(a), into, 1e-9, "local frame coordinates (in place)")
            res.append(xyz(a))
            a.transform_to_global_frame(*args)
        close(xyz(a), p, 1e-9, "there and back")
    d = np.linalg.norm(np.subtract(case["u"], case["v"]))
    close(np.linalg.norm(res[0] - res[1]), d, 1e-9, "distance in the frame")
    for i, q in enumerate((n, t1, t2)):
        close(xyz(q), m[:, i], 0, "frame vector after use")
    if c is not None:
        close(xyz(c), c0, 0, "origin after use")
        ctx.label("origin")
    off = np.abs(m) > 1e-6
    if off.sum() == 3:
        ctx.skip("axis-aligned frame")
    if d < 1e-9:
        ctx.skip("equal vectors")


@st.composite
def compare_case(draw):
    return {
        "u": draw(vec(20)),
        "i": draw(st.integers(0, 2)),
        "d": draw(st.sampled_from([0.0, 1e-11, 1e-6, 1e-3, 0.5, 2.0])),
        "wrong": draw(
            st.sampled_from(["float", "int", "str", "none", "list", "array", "tuple"])
        ),
        "f": draw(st.sampled_from([1e-4, 0.05, 1.0])),
    }


WRONG = {
    "float": 1.5,
    "int": 2,
    "str": "ab",
    "none": None,
    "list": [1.0, 2.0, 3.0],
    "array": np.array([1.0, 2.0, 3.0]),
    "tuple": (1.0, 2.0, 3.0),
}


def compare(case, ctx):
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry.vector import approximately_equal_vectors

    u = V(case["u"])
    q = list(case["u"])
    q[case["i"]] += case["d"]
    v = V(q)
    same = case["d"] == 0.0
    require(bool(u == v) is same, f"{case['u']} == {q} gave {u == v}")
    require(bool(u != v) is (not same), f"{case['u']} != {q} gave {u != v}")
    require(bool(u == Vector3(u)), "copy not equal")
    # approximate comparison: 1 per cent relative, 1e-5 absolute
    base = max(abs(case["u"][case["i"]]), 1e-2)
    p = list(case["u"])
    p[case["i"]] += case["f"] * base + (1e-3 if case["f"] > 0.01 else 0)
    want = case["f"] < 0.01 and abs(case["u"][case["i"]]) > 2e-2
    unsure = case["f"] < 0.01 and not want
    if not unsure:
        got = bool(approximately_equal_vectors(u, V(p)))
        require(got is want, f"approximately_equal({case['u']}, {p}) gave {got}")
    require(bool(approximately_equal_vectors(u, u)), "not approximately itself")
    # wrong operands
    bad = WRONG[case["wrong"]]
    kind = case["wrong"]
    must_raise(lambda: u + bad, f"vector + {kind}")
    must_raise(lambda: u - bad, f"vector - {kind}")
    must_raise(lambda: u == bad, f"vector == {kind}")
    must_raise(lambda: u.dot(bad), f"dot with {kind}")
    if kind not in ("float", "int"):
        must_raise(lambda: Vector3(bad), f"Vector3({kind})")
        if kind != "array":
            must_raise(lambda: u * bad, f"vector * {kind}")
            must_raise(lambda: u / bad, f"vector / {kind}")

            def imul():
                t = Vector3(u)
                t *= bad

            def idiv():
                t = Vector3(u)
                t /= bad

            must_raise(imul, f"vector *= {kind}")
            must_raise(idiv, f"vector /= {kind}")
    must_raise(lambda: u * u, "vector * vector")
    must_raise(lambda: u / u, "vector / vector")
    close(xyz(u), case["u"], 0, "vector after rejected operations")
    ctx.label(kind)


@st.composite
def missing_case(draw):
    return {"u": draw(vec(20)), "n": draw(st.integers(1, 3))}


def missing(case, ctx):
    from hypervehicle.geometry import Vector3

    p = case["u"][: case["n"]]
    v = Vector3(*p)
    want = p + [0.0] * (3 - len(p))
    close([v.x, v.y, v.z], want, 0, "missing components default to zero")
    w = Vector3(**dict(zip("xyz", p)))
    close([w.x, w.y, w.z], want, 0, "keyword components")
    close(v.vec, want, 1e-12 * 50, "vec")
    close(abs(v), math.sqrt(sum(c * c for c in p)), 1e-9, "magnitude")
    c = Vector3.from_coordinates(want)
    close([c.x, c.y, c.z], want, 0, "from_coordinates")
    must_raise(lambda: Vector3(), "Vector3()")


FACETS = [
    Facet("algebra", algebra_case, algebra, 400, rule="both vectors non-zero"),
    Facet("inplace", inplace_case, inplace, 200, rule="every history of one or more operations"),
    Facet(
        "frame", frame_case, frame, 300,
        rule="frame not axis-aligned and two different vectors",
    ),
    Facet("compare", compare_case, compare, 200, rule="every case"),
    Facet("construct", missing_case, missing, 100, rule="every case"),
]
ASSUMPTIONS = ["components are finite and below 100 in magnitude; lengths divided by are at least 1e-2"]
