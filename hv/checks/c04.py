"""C04: meshes and results always describe the vehicle's current geometry."""

import glob
import os

import numpy as np
from hypothesis import strategies as st

from hv.checks.c02 import parameters, resolutions, tessellate
from hv.comp import build_clustering, build_vehicle, fresh_patches, mesh_of, ref_vehicle_maps, vehicle_spec
from hv.core import Facet
from hv.gen import V, angle_deg, axis_rot, build_motion, motion_spec, num, ref_motion, vec, xyz
from hv.oracle import area, close, must_raise, require, signed_volume

CHEAP = ("revolved", "ogive", "swept", "composite")


class Model:
    """Expected state: per component, the maps applied to the bare patches."""

    def __init__(self, v):
        self.v = v
        self.vt = list(v.get("vt", []))
        self.base = [fresh_patches(c["c"]) for c in v["comps"]]
        self.clus = [{} for _ in v["comps"]]
        self.maps = None
        self.cells = [None] * len(v["comps"])
        self.cache = {}

    def changed(self, i):
        self.cells[i] = None
        self.cache.pop(i, None)

    def generate(self):
        v = {**self.v, "vt": self.vt}
        self.maps = [ref_vehicle_maps(v, i) for i in range(len(self.base))]
        for i in range(len(self.base)):
            self.changed(i)

    def move(self, i, f):
        self.maps[i] = [lambda p, g=g: f(g(p)) for g in self.maps[i]]
        self.changed(i)

    def reflect(self, i, axis):
        d = np.ones(3)
        d["xyz".index(axis)] = -1
        self.maps[i] = self.maps[i] + [lambda p, g=g: d * g(p) for g in self.maps[i]]
        self.changed(i)

    def mesh(self, i):
        if i not in self.cache:
            s = self.v["comps"][i]["c"]
            res = resolutions(s, len(self.base[i])) * len(self.maps[i])
            if self.cells[i]:
                res = [(self.cells[i],) * 2] * len(res)
            clus = self.clus[i]
            out, k = [], 0
            for g in self.maps[i]:
                for p in self.base[i]:
                    nr, ns = res[k]
                    k += 1
                    rs = parameters(nr, {"p": clus["i"]} if "i" in clus else {})
                    ss = parameters(ns, {"p": clus["j"]} if "j" in clus else {})
                    out.append(tessellate(lambda r, s: g(xyz(p(r, s))), rs, ss))
            self.cache[i] = np.concatenate(out)
        return self.cache[i]

    def totals(self, dens):
        vol = mass = ar = 0.0
        first = np.zeros(3)
        scale, least = 1.0, np.inf
        for i, d in enumerate(dens):
            m = self.mesh(i)
            scale = max(scale, 1 + np.abs(m).max())
            w = np.einsum("ij,ij->i", m[:, 0], np.cross(m[:, 1], m[:, 2])) / 6
            vol += w.sum()
            least = min(least, abs(w.sum()))
            mass += d * w.sum()
            first += d * (w[:, None] * m.sum(axis=1) / 4).sum(axis=0)
            ar += area(m)
        # the centre of a body of no volume is undefined
        sound = least > 1e-3 * scale**3 and abs(mass) > 5e-3 * scale**3
        return vol, mass, ar, first, scale, sound


@st.composite
def op_spec(draw, n):
    i = draw(st.integers(0, n - 1))
    k = draw(st.sampled_from(["generate", "generate", "transform", "transform", "transform", "mesh", "mesh", "mesh", "mesh", "analyse", "stl", "addvt", "rotate", "translate", "reflect", "surface", "cluster"]))
    if k in ("transform", "addvt"):
        return {"op": k, "m": draw(st.lists(motion_spec(), min_size=1, max_size=2))}
    if k == "rotate":
        return {"op": k, "i": i, "deg": draw(angle_deg(-180, 180)), "axis": draw(st.sampled_from("xyz"))}
    if k == "translate":
        return {"op": k, "i": i, "v": draw(vec(3))}
    if k == "reflect":
        return {"op": k, "i": i, "axis": draw(st.sampled_from("xyz"))}
    if k == "surface":
        return {"op": k, "i": i, "n": draw(st.one_of(st.none(), st.integers(1, 3)))}
    if k == "cluster":
        return {"op": k, "i": i, "ax": draw(st.sampled_from("ij")), "p": draw(num(0.5, 2))}
    if k == "mesh":
        return {"op": k, "i": i}
    if k == "stl":
        return {"op": k, "prefix": draw(st.sampled_from(["one", "two"]))}
    return {"op": k}


def shifts(x):
    """Number of displacements in a description.  Each doubles the cost of
    evaluating a patch in the library."""
    if isinstance(x, dict):
        return ("v" in x or "f" in x or x.get("op") == "translate") + sum(shifts(y) for y in x.values() if not isinstance(y, str))
    if isinstance(x, list):
        return sum(shifts(y) for y in x)
    return 0


@st.composite
def history_case(draw):
    v = draw(vehicle_spec(kinds=CHEAP, n=(1, 2), ghosts=False, names=False, closed=True))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part{i}"
        if c["c"]["k"] == "composite":
            # many patches are slow to evaluate and show nothing more
            c["c"]["children"] = c["c"]["children"][:2]
            c["c"]["res"] = 2
    n = len(v["comps"])
    ops = draw(st.lists(op_spec(n), min_size=2, max_size=8))
    if sum(o["op"] == "reflect" for o in ops) > 1:
        ops = [o for o in ops if o["op"] != "reflect"]
    while len(ops) > 2 and shifts([ops, v]) > 6:
        ops.pop(next((i for i, o in enumerate(ops) if shifts(o)), 0))
    return {
        "v": v,
        "dens": [draw(num(0.5, 3)) for _ in range(n)],
        "auto": draw(st.booleans()),
        "ops": ops,
    }


def check_totals(got, model, dens, what):
    vol, mass, ar, first, scale, sound = model.totals(dens)
    if any(model.clus):
        # clustering may part neighbouring patches; an open mesh has no volume
        return
    close(got[0], vol, 1e-4 * scale**3, f"{what}: volume")
    close(got[1], mass, 3e-4 * scale**3, f"{what}: mass")
    if sound:
        close(np.asarray(got[2]) * mass, first, 2e-3 * scale**4, f"{what}: mass times centre of gravity")


def history(case, ctx):
    from stl import mesh as stlmesh

    v, dens = case["v"], case["dens"]
    veh = build_vehicle(v)
    names = [c["o"]["name"] for c in v["comps"]]
    table = dict(zip(names, dens))
    if case["auto"]:
        veh.analyse_after_generating(table)
        ctx.label("analysed on generation")
    model = Model(v)
    must_raise(lambda: veh.transform([("rotate", 10.0, "x")]), "transforming a vehicle that was not generated")
    done = []
    changes = 0
    read = False

    def look(i, what):
        want = model.mesh(i)
        close(mesh_of(veh.components[i]), want, 4e-6 * (1 + np.abs(want).max()), f"{what} of component {i} after {done}")

    def generate():
        veh.generate()
        model.generate()

    for o in [{"op": "generate"}] + case["ops"]:
        op = o["op"]
        if op == "generate":
            generate()
        elif op == "transform":
            ms = [build_motion(m) for m in o["m"]]
            veh.transform(ms[0] if len(ms) == 1 else ms)
            for i in range(len(names)):
                for m in o["m"]:
                    model.move(i, ref_motion(m))
        elif op == "addvt":
            # takes effect at the next generation only
            veh.add_vehicle_transformations([build_motion(m) for m in o["m"]])
            model.vt = model.vt + o["m"]
        elif op == "rotate":
            veh.components[o["i"]].rotate(o["deg"], o["axis"])
            m = axis_rot(o["axis"], o["deg"])
            model.move(o["i"], lambda p, m=m: m @ p)
        elif op == "translate":
            veh.components[o["i"]].translate(V(o["v"]))
            model.move(o["i"], lambda p, d=np.array(o["v"], float): p + d)
        elif op == "reflect":
            # without an axis of its own a component appends the image
            c = v["comps"][o["i"]]["o"]
            if "reflect" in c and not c["append"]:
                continue
            veh.components[o["i"]].reflect(o["axis"])
            model.reflect(o["i"], o["axis"])
        elif op == "surface":
            veh.components[o["i"]].surface(resolution=o["n"])
            model.changed(o["i"])
            model.cells[o["i"]] = o["n"]
        elif op == "cluster":
            veh.components[o["i"]].add_clustering_options(**build_clustering({o["ax"]: o["p"]}))
            model.clus[o["i"]] = {**model.clus[o["i"]], o["ax"]: o["p"]}
            model.changed(o["i"])
        elif op == "mesh":
            look(o["i"], "mesh")
        elif op == "analyse":
            got = veh.analyse(table)
            check_totals((got[0], got[1], got[2]), model, dens, f"analysis after {done}")
            close(veh.area, model.totals(dens)[2], 1e-4 * model.totals(dens)[4] ** 2, f"area after {done}")
        elif op == "stl":
            files(veh, model, names, o["prefix"], done, stlmesh)
        done.append(op)
        if op in ("generate", "transform", "rotate", "translate", "reflect", "surface", "cluster"):
            changes += read
        if op in ("mesh", "analyse", "stl"):
            read = True
        # results kept by the vehicle follow vehicle level changes
        if case["auto"] and op in ("generate", "transform"):
            r = veh.analysis_results
            require(r is not None, f"no analysis results after {done}")
            check_totals((r["volume"], r["mass"], r["cog"]), model, dens, f"results kept after {done}")
            read = True
    for i in range(len(names)):
        look(i, "mesh")
    for o in sorted(set(done)):
        ctx.label(o)
    if not changes:
        ctx.skip("no change after a mesh was read")


def files(veh, model, names, prefix, done, stlmesh):
    for f in glob.glob(f"{prefix}-*.stl"):
        os.remove(f)
    veh.to_stl(prefix=prefix)
    for i, n in enumerate(names):
        got = np.asarray(stlmesh.Mesh.from_file(f"{prefix}-{n}.stl").vectors, float)
        want = model.mesh(i)
        close(got, want, 4e-6 * (1 + np.abs(want).max()), f"file of component {i} after {done}")


# ---------------------------------------------------------- repeated generation


@st.composite
def repeat_case(draw):
    return {
        "v": draw(vehicle_spec(kinds=CHEAP, n=(1, 3), rich=True)),
        "times": draw(st.integers(2, 4)),
        "read": draw(st.booleans()),
        "move": draw(st.one_of(st.none(), motion_spec())),
    }


def repeat(case, ctx):
    """Generating again gives exactly the geometry of generating once."""
    one, many = build_vehicle(case["v"]), build_vehicle(case["v"])
    one.generate()
    want = [mesh_of(c) for c in one.components]
    for k in range(case["times"]):
        many.generate()
        if case["read"]:
            for i, c in enumerate(many.components):
                close(mesh_of(c), want[i], 0.0, f"mesh of component {i} after generating {k + 1} times")
        if case["move"] and k < case["times"] - 1:
            many.transform([build_motion(case["move"])])
    for i, c in enumerate(many.components):
        close(mesh_of(c), want[i], 0.0, f"mesh of component {i} after generating {case['times']} times")
    if any("reflect" in c["o"] for c in case["v"]["comps"]):
        ctx.label("reflected")
    if case["move"]:
        ctx.label("moved in between")


# ------------------------------------------------------------- property files


@st.composite
def files_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "swept"), n=(1, 2), options=False, names=False, ghosts=False, closed=True))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part{i}"
    return {
        "v": v,
        "dens": [draw(num(0.5, 3)) for _ in v["comps"]],
        "moves": draw(st.lists(motion_spec(), min_size=1, max_size=2)),
        "again": draw(st.booleans()),
    }


def property_files(case, ctx):
    """Files written after a transformation hold the transformed values."""
    import pandas as pd

    v, dens = case["v"], case["dens"]
    veh = build_vehicle(v)
    names = [c["o"]["name"] for c in v["comps"]]
    veh.analyse_after_generating(dict(zip(names, dens)))
    model = Model(v)
    veh.generate()
    model.generate()
    veh.to_stl(prefix="first")
    for m in case["moves"]:
        veh.transform([build_motion(m)])
        for i in range(len(names)):
            model.move(i, ref_motion(m))
    if case["again"]:
        veh.generate()
        model.generate()
        ctx.label("generated again")
    veh.to_stl(prefix="second")
    vol, mass, ar, first, scale, sound = model.totals(dens)
    t = pd.read_csv(os.path.join("second_properties", "second_volmass.csv"), index_col=0)
    close(t.loc["vehicle", "volume"], vol, 1e-4 * scale**3, "volume in the file")
    close(t.loc["vehicle", "mass"], mass, 3e-4 * scale**3, "mass in the file")
    close(t.loc["vehicle", "area"], ar, 1e-4 * scale**2, "area in the file")
    cog = np.fromfile(os.path.join("second_properties", "second_cog.txt"), sep=", ")
    if sound:
        close(cog * mass, first, 2e-3 * scale**4, "mass times centre of gravity in the file")
    else:
        ctx.skip("nearly no mass")


FACETS = [
    Facet("history", history_case, history, 40, rule="geometry changed after a mesh was read"),
    Facet("history2", history_case, history, 40, rule="geometry changed after a mesh was read"),
    Facet("history3", history_case, history, 40, rule="geometry changed after a mesh was read"),
    Facet("repeat", repeat_case, repeat, 40, rule="every case"),
    Facet("files", files_case, property_files, 40, rule="mass well above rounding"),
]
