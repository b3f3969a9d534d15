"""C11: components and vehicles are independent of each other.

A case is a history of operations on several objects that share their inputs.
The history runs in one forked process; the history of each object alone, with
inputs of its own, runs in another.  Both start from an untouched library, so
every object must end up the same."""

import copy
import json
import os
import pickle
import traceback

import numpy as np
from hypothesis import strategies as st

import hv.comp as comp
import hv.gen as gen
from hv.checks.c06 import keys
from hv.comp import component_spec, option_spec
from hv.core import Facet, HarnessError, Violation
from hv.gen import angle_deg, motion_spec, num, vec, xyz
from hv.oracle import close, require

Q = [(0.0, 0.0), (1.0, 0.0), (0.3, 0.6), (1.0, 1.0)]


def in_child(fn, *args):
    """Run fn in a forked process and return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Exception as e:
                frames = traceback.extract_tb(e.__traceback__)
                lib = any("/repo/src/" in os.path.realpath(f.filename) for f in frames)
                out = ("raised" if lib else "harness", f"{type(e).__name__}: {e}", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("forked process ended without a result")
    out = pickle.loads(data)
    if out[0] == "harness":
        raise HarnessError(out[2])
    return out


# ------------------------------------------------------------------ inputs


class Shared:
    """Builds every vector, path, function and option list once."""

    def __init__(self):
        self.store = {}
        self.seen = []
        self.lists = []

    def once(self, kind, key, make):
        k = kind + json.dumps(key, sort_keys=True)
        if k not in self.store:
            self.store[k] = make()
            if kind in ("V", "path"):
                self.seen.append((k, self.store[k], self.look(self.store[k])))
        return self.store[k]

    @staticmethod
    def look(x):
        if hasattr(x, "x"):
            return [x.x, x.y, x.z]
        return [xyz(x(t)).tolist() for t in (0.0, 0.3, 1.0)]

    def changed(self):
        return [k for k, x, was in self.seen if not np.allclose(self.look(x), was, rtol=0, atol=1e-12)]

    def install(self):
        V, path, width, opts = comp.V, comp.build_path, comp.width, comp.build_options
        comp.V = lambda p: self.once("V", list(map(float, p)), lambda: V(p))
        comp.build_path = lambda s: self.once("path", s, lambda: path(s))
        comp.width = lambda w: self.once("width", w, lambda: width(w))

        def shared_options(o):
            # one list of curvatures and one dict of clustering for everybody
            rest = {k: v for k, v in o.items() if k not in ("name", "ghost")}
            own = {k: v for k, v in o.items() if k in ("name", "ghost")}
            return {**self.once("options", rest, lambda: opts(rest)), **own}

        comp.build_options = shared_options
        self.motions = lambda ms: self.once("motions", ms, lambda: [gen.build_motion(m) for m in ms])


class Own:
    """Fresh inputs for every object."""

    def install(self):
        self.motions = lambda ms: [gen.build_motion(m) for m in ms]

    def changed(self):
        return []


def build_comp(s, inputs):
    from hypervehicle.components import Cube, Sphere, Wing
    from hypervehicle.geometry import Vector3

    if s["k"] in ("cube", "sphere") and s.get("dflt"):
        c = {"cube": Cube, "sphere": Sphere}[s["k"]](s["r"], stl_resolution=s["res"], verbosity=0)
        c._multiprocess = False
        return c
    return comp.build_component(s)


# ------------------------------------------------------------------- units


class Part:
    def __init__(self, spec, inputs):
        self.inputs = inputs
        self.c = build_comp(spec, inputs)
        self.made = False

    def do(self, op, k):
        c = self.c
        if op == "generate":
            c.patches = {}
            c.generate_patches()
            self.made = True
            return
        if not self.made:
            self.do("generate", k)
        if op == "move":
            for f, *args in self.inputs.motions(k["m"]):
                getattr(c, f)(*args)
        elif op == "reflect":
            if len(c.patches) < 40:
                c.reflect(k["axis"])
        elif op == "cluster":
            c.add_clustering_options(**comp.build_clustering(k["clus"]))
        elif op == "mesh":
            c.mesh
        elif op == "surface":
            c.surface()
        elif op == "save":
            c.to_stl(f"part{k['id']}.stl")
        elif op == "check":
            c.stl_check()
        elif op == "repair":
            c.stl_repair(k["far"])
        elif op == "analyse":
            c.mesh.get_mass_properties()
        elif op == "resolve":
            if isinstance(c.stl_resolution, int):
                c.stl_resolution = k["n"]
                c.surface()

    def twin(self):
        t = copy.copy(self)
        t.c = copy.deepcopy(self.c)
        return t

    def look(self):
        c = self.c
        if not self.made:
            self.do("generate", {})
        return [look_component(c)]


def look_component(c):
    pts = np.array([[xyz(p(r, s)) for r, s in Q] for p in c.patches.values()])
    return {
        "points": pts,
        "mesh": np.array(c.mesh.vectors, float),
        "name": c.name,
    }


class Craft:
    def __init__(self, spec, inputs):
        from hypervehicle import Vehicle

        self.inputs = inputs
        v = self.v = Vehicle()
        v.configure(name="craft", verbosity=0)
        if "angle" in spec:
            v.vehicle_angle_offset = spec["angle"]
        for c in spec["comps"]:
            v.add_component(build_comp(c["c"], inputs), **comp.build_options(c["o"]))
        if "vt" in spec:
            v.add_vehicle_transformations(inputs.motions(spec["vt"]))
        self.names = keys(spec["comps"])
        self.made = False
        self.results = None

    def do(self, op, k):
        v = self.v
        if op == "generate":
            v.generate()
            self.made = True
            return
        if op == "vt":
            v.add_vehicle_transformations(self.inputs.motions(k["m"]))
            return
        if op == "property":
            v.add_property(k["name"], k["value"])
            return
        if not self.made:
            self.do("generate", k)
        if op == "move":
            v.transform(self.inputs.motions(k["m"]))
        elif op == "mesh":
            for c in v.components:
                c.mesh
        elif op == "save":
            v.to_stl(prefix=f"craft{k['id']}")
        elif op == "analyse":
            self.results = v.analyse({n: 1.0 + 0.5 * i for i, n in enumerate(self.names)})
        elif op == "repair":
            v.components[0].stl_repair(k["far"])
        elif op == "check":
            v.components[-1].stl_check()

    def twin(self):
        t = copy.copy(self)
        t.v = copy.deepcopy(self.v)
        t.results = copy.deepcopy(self.results)
        return t

    def look(self):
        v = self.v
        if not self.made:
            self.do("generate", {})
        out = [look_component(c) for c in v.components]
        out.append(
            {
                # which component goes by which name; ghosts are left out
                "names": {n: [i for i, x in enumerate(v.components) if x is c] for n, c in v.get_non_ghost_components().items()},
                "properties": dict(v.properties),
                "repr": repr(v),
                "volume": None if self.results is None else [float(v.volume), float(v.mass), *np.ravel(v.cog), *np.ravel(v.moi)],
            }
        )
        return out


def make_unit(u, inputs):
    s = dict(u["s"])
    if u["t"] == "part":
        return Part(s, inputs)
    return Craft(s, inputs)


def run_world(units, ops):
    """The whole history with shared inputs."""
    inputs = Shared()
    inputs.install()
    objs = {}
    n = len(units)
    for k, op in enumerate(ops):
        i = op["u"]
        if i not in objs:
            objs[i] = make_unit(units[i], inputs)
        if op["op"] == "copy":
            objs[n] = objs[i].twin()
            n += 1
        else:
            objs[i].do(op["op"], op)
    for i in range(len(units)):
        if i not in objs:
            objs[i] = make_unit(units[i], inputs)
    import hypervehicle.transformations as t

    return {i: o.look() for i, o in objs.items()}, inputs.changed(), repr(t.CART3D)


def run_alone(unit, history):
    inputs = Own()
    inputs.install()
    o = make_unit(unit, inputs)
    for op in history:
        o.do(op["op"], op)
    return o.look()


def histories(units, ops):
    h = {i: [] for i in range(len(units))}
    root = {i: i for i in h}
    for op in ops:
        if op["op"] == "copy":
            new = len(h)
            h[new] = list(h[op["u"]])
            root[new] = root[op["u"]]
        else:
            h[op["u"]].append(op)
    return h, root


def same(a, b, what):
    if isinstance(a, np.ndarray):
        close(a, b, 1e-9 * (1 + np.abs(b).max()), what)
    elif isinstance(a, dict):
        require(sorted(a) == sorted(b), f"{what}: {sorted(a)} instead of {sorted(b)}")
        for k in a:
            same(a[k], b[k], f"{what} {k}")
    elif isinstance(a, list) and a and isinstance(a[0], float):
        x, y = np.array(a), np.array(b)
        require(x.shape == y.shape and bool(np.all(np.isfinite(x) == np.isfinite(y))), what)
        f = np.isfinite(x)
        close(x[f], y[f], 1e-6 * (1 + np.abs(y[f]).max(initial=0.0)), what)
    elif isinstance(a, (list, tuple)):
        require(len(a) == len(b), f"{what}: {len(a)} instead of {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    else:
        require(a == b, f"{what}: {a!r} instead of {b!r}")


def world(case, ctx):
    units, ops = case["units"], case["ops"]
    hist, root = histories(units, ops)
    got = in_child(run_world, units, ops)
    alone = {i: in_child(run_alone, units[root[i]], hist[i]) for i in hist}
    for i, r in alone.items():
        if r[0] == "raised":
            raise Violation(f"object {i} alone raised {r[1]}")
    require(got[0] == "ok", f"raised only in company: {got[1]}")
    objs, changed, cart = got[1]
    require(not changed, f"inputs changed: {changed[:3]}")
    require(cart == repr([("rotate", 180, "z"), ("rotate", 90, "x")]), f"axis transformations became {cart}")
    for i in hist:
        kind = "copy of " if i >= len(units) else ""
        same(objs[i], alone[i][1], f"object {i} ({kind}{label(units[root[i]])})")
    ctx.label(f"{sum(o['op'] == 'copy' for o in ops)} copies")
    for o in ops:
        ctx.label(o["op"])
    touched = {o["u"] for o in ops}
    if len(touched) < 2:
        ctx.skip("one object touched")


def label(u):
    if u["t"] == "part":
        return u["s"]["k"]
    return "vehicle of " + ", ".join(c["c"]["k"] for c in u["s"]["comps"])


# -------------------------------------------------------------- strategies

PART_OPS = ["generate", "move", "move", "reflect", "cluster", "mesh", "surface", "save", "check", "repair", "analyse", "resolve", "copy"]
CRAFT_OPS = ["generate", "move", "vt", "mesh", "save", "analyse", "property", "repair", "check", "copy"]


@st.composite
def history(draw, units, n_ops):
    kinds = [u["t"] for u in units]
    ops = []
    copied = draw(st.integers(0, 3))  # an early copy in half of the histories
    last = None
    for k in range(draw(st.integers(3, n_ops))):
        i = draw(st.integers(0, len(kinds) - 1))
        if k == 1 and i == last:
            i = (i + 1) % len(kinds)
        last = i
        name = draw(st.sampled_from(PART_OPS if kinds[i] == "part" else CRAFT_OPS))
        if k == copied:
            name = "copy"
            if len(kinds) < 5 and draw(st.integers(0, 3)) == 0:
                # a mesh made before copying is changed in place afterwards
                far = draw(st.sampled_from([0.1, 0.4, 1.0]))
                kinds.append(kinds[i])
                ops.append({"u": i, "op": "mesh", "id": k})
                ops.append({"u": i, "op": "copy", "id": k})
                ops.append({"u": draw(st.sampled_from([i, len(kinds) - 1])), "op": "repair", "far": far, "id": k})
                continue
        op = {"u": i, "op": name, "id": k}
        if name in ("move", "vt"):
            op["m"] = draw(st.lists(motion_spec(), min_size=1, max_size=2))
        elif name == "reflect":
            op["axis"] = draw(st.sampled_from("xyz"))
        elif name == "cluster":
            op["clus"] = {a: draw(num(0.5, 2)) for a in draw(st.sampled_from(["i", "j", "ij"]))}
        elif name == "repair":
            # from hardly anything to joining neighbouring vertices
            op["far"] = draw(st.sampled_from([1e-5, 0.1, 0.4]))
        elif name == "resolve":
            op["n"] = draw(st.integers(1, 3))
        elif name == "property":
            op["name"] = draw(st.sampled_from(["a", "b"]))
            op["value"] = draw(num(-2, 2))
        elif name == "copy":
            if len(kinds) >= 5:
                continue
            kinds.append(kinds[i])
        ops.append(op)
    return ops


@st.composite
def relatives(draw, base, n):
    """The same description several times, some with another resolution."""
    out = []
    for _ in range(n):
        s = json.loads(json.dumps(base))
        if isinstance(s["res"], int) and draw(st.booleans()):
            s["res"] = draw(st.integers(2, 3))
        if s["k"] in ("cube", "sphere"):
            if draw(st.booleans()):
                s["dflt"] = True
            else:
                s["c"] = draw(st.sampled_from([s["c"], [0.0, 0.0, 0.0]]))
        out.append(s)
    return out


@st.composite
def part_case(draw, kinds):
    units = []
    for _ in range(draw(st.integers(1, 2))):
        base = draw(component_spec(kinds))
        for s in draw(relatives(base, draw(st.integers(1, 2)))):
            units.append({"t": "part", "s": s})
    if len(units) == 1:
        units = units * 2
    return {"units": units, "ops": draw(history(units, 8))}


@st.composite
def craft_case(draw, kinds):
    bases = [draw(component_spec(kinds)) for _ in range(draw(st.integers(1, 2)))]
    opts = [draw(option_spec(rich=True)) for _ in range(2)]
    for o in opts:
        # reflection is left to the single parts: it cancels volumes
        if o.get("append"):
            o["append"] = False
    if draw(st.booleans()):
        opts[0]["clus"] = {a: draw(num(0.5, 2)) for a in draw(st.sampled_from(["i", "ij"]))}
    vts = [draw(st.lists(motion_spec(), min_size=1, max_size=2)) for _ in range(2)]
    units = []
    for _ in range(draw(st.integers(2, 3))):
        comps = []
        for k in range(draw(st.integers(1, 2))):
            o = dict(draw(st.sampled_from(opts)))
            if draw(st.booleans()):
                o["name"] = f"part{k}"
            if draw(st.integers(0, 3)) == 0:
                o["ghost"] = True
            comps.append({"c": draw(st.sampled_from(bases)), "o": o})
        v = {"comps": comps}
        if draw(st.booleans()):
            v["vt"] = draw(st.sampled_from(vts))
        if draw(st.booleans()):
            v["angle"] = draw(angle_deg(-90, 90))
        units.append({"t": "craft", "s": v})
    if draw(st.booleans()):
        units.append({"t": "part", "s": draw(st.sampled_from(bases))})
    ops = draw(history(units, 8))
    for o in ops:
        if "m" in o and draw(st.booleans()):
            o["m"] = draw(st.sampled_from(vts))
    return {"units": units, "ops": ops}


# ------------------------------------------------------------------ hangar

SMALL = ["Wedge", "Finner", "Falcon9", "HIFiRE8"]
LARGE = ["D21", "Waverider", "ReFEX"]
FIXED = {"D21": ("L_w", "L_b")}


def hangar_points(v):
    from hv.checks.c10 import sample_vehicle

    return sample_vehicle(v, [(0.0, 0.0), (0.4, 0.7)])


def hangar_alone(name, kw):
    from hv.checks.c10 import maker

    return hangar_points(maker(name)(**kw).create_instance())


def hangar_world(steps):
    from hv.checks.c10 import maker

    gens, out = {}, []
    for s in steps:
        if s["op"] == "new" or s["g"] not in gens:
            gens[s["g"]] = maker(s["v"])(**s["kw"])
        g = gens[s["g"]]
        v = g.create_instance()
        out.append(v)
        if s["op"] == "move":
            v.configure(verbosity=0)
            for c in v.components:
                c.verbosity, c._multiprocess = 0, False
            v.generate()
            v.transform([("rotate", 30, "y")])
    import hypervehicle.transformations as t

    return [hangar_points(v) for v in out], repr(t.CART3D)


@st.composite
def hangar_case(draw):
    from hv.checks.c10 import VEHICLES

    names = draw(st.lists(st.sampled_from(SMALL), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 2)) == 0:
        names[-1] = draw(st.sampled_from(LARGE))
    steps = []
    for k in range(draw(st.integers(2, 4))):
        g = draw(st.integers(0, len(names) - 1))
        kw = {}
        for p, d in list(VEHICLES[names[g]]["p"].items())[:3]:
            if p not in FIXED.get(names[g], ()) and draw(st.booleans()):
                kw[p] = round(d * (1 + draw(st.integers(-50, 50)) / 1000), 6)
        steps.append({"g": g, "v": names[g], "kw": kw, "op": draw(st.sampled_from(["new", "again", "move"]))})
    return {"steps": steps}


def hangar(case, ctx):
    steps = case["steps"]
    got = in_child(hangar_world, steps)
    require(got[0] == "ok", f"raised: {got[1]}")
    vehicles, cart = got[1]
    require(cart == repr([("rotate", 180, "z"), ("rotate", 90, "x")]), f"axis transformations became {cart}")
    current = {}
    for k, s in enumerate(steps):
        if s["op"] == "new" or s["g"] not in current:
            current[s["g"]] = s["kw"]
        want = in_child(hangar_alone, s["v"], current[s["g"]])
        require(want[0] == "ok", f"{s['v']} raised {want[1]}")
        # the points are taken after generating anew, which undoes the move
        same(vehicles[k], want[1], f"{s['v']} number {k + 1} of {[t['v'] for t in steps]}")
        ctx.label(s["v"])


# ---------------------------------------------------------- shared options


@st.composite
def children_case(draw):
    kinds = ("cube", "sphere", "revolved", "swept")
    base = draw(component_spec(kinds))
    return {
        "a": base,
        "b": draw(st.one_of(st.just(base), component_spec(kinds))),
        "clus": {a: draw(num(0.5, 2)) for a in draw(st.sampled_from(["i", "j", "ij"]))},
        "more": {a: draw(num(0.5, 2)) for a in draw(st.sampled_from(["i", "j", "ij"]))},
        "in": draw(st.sampled_from(["vehicle", "composite", "two"])),
    }


def _children(case, alone):
    """Two components added with one dict of clustering options, one of which
    is then clustered further; returns the mesh of the other."""
    from hypervehicle import Vehicle
    from hypervehicle.components import CompositeComponent

    inputs = Own() if alone else Shared()
    inputs.install()
    options = comp.build_clustering(case["clus"])
    keys = sorted(options)
    a, b = build_comp(case["a"], inputs), build_comp(case["b"], inputs)

    def holder():
        if case["in"] == "vehicle" and case["a"]["k"] in ("revolved", "swept") and case["b"]["k"] in ("revolved", "swept"):
            return Vehicle()
        return CompositeComponent(verbosity=0)

    h = holder()
    h2 = h if case["in"] != "two" else CompositeComponent(verbosity=0)
    h.verbosity = 0
    h.add_component(a, clustering=options)
    h2.add_component(b, clustering=options if not alone else comp.build_clustering(case["clus"]))
    if not alone:
        a.add_clustering_options(**comp.build_clustering(case["more"]))
        a.generate_patches()
        a.mesh
    b.generate_patches()
    return np.array(b.mesh.vectors, float), sorted(options) == keys


def children(case, ctx):
    want = in_child(_children, case, True)
    got = in_child(_children, case, False)
    for r in (want, got):
        require(r[0] == "ok", f"raised: {r[1]}")
    close(got[1][0], want[1][0], 1e-9 * (1 + np.abs(want[1][0]).max()), f"{case['b']['k']} after its sibling was clustered further")
    require(got[1][1], "the caller's clustering options changed")
    ctx.label(case["in"])
    if case["more"].items() <= case["clus"].items():
        ctx.skip("same options again")


FACETS = [
    Facet("parts", lambda: part_case(("revolved", "ogive", "swept", "cube", "sphere", "composite")), world, 70, rule="two objects touched"),
    Facet("parts2", lambda: part_case(("cube", "sphere", "revolved", "composite")), world, 70, rule="two objects touched"),
    Facet("winged", lambda: part_case(("wing", "fin")), world, 3, rule="two objects touched"),
    Facet("vehicles", lambda: craft_case(("revolved", "swept", "ogive")), world, 45, rule="two objects touched"),
    Facet("vehicles2", lambda: craft_case(("revolved", "swept", "composite")), world, 45, rule="two objects touched"),
    Facet("winged-vehicles", lambda: craft_case(("wing", "fin", "revolved")), world, 2, rule="two objects touched"),
    Facet("hangar", hangar_case, hangar, 5, rule="every case"),
    Facet("children", children_case, children, 80, rule="the further clustering differs"),
]
ASSUMPTIONS = [
    "copies are deep copies; shallow copies share by definition",
    "an object added to a vehicle or composite belongs to it and is not added again",
]
