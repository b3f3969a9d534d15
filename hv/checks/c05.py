"""C05: STL output is one faithful, correctly named file per non-ghost component."""

import contextlib
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_component, build_options, component_spec, mesh_of, option_spec
from hv.core import Facet, HarnessError
from hv.gen import build_motion, motion_spec, num
from hv.oracle import close, must_raise, require

CHEAP = ("revolved", "ogive", "swept", "composite")
TYPES = {"revolved": "revolved", "ogive": "revolved", "swept": "swept", "composite": "composite", "fin": "fin", "wing": "wing"}


@contextlib.contextmanager
def own_directory():
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix="stl-", dir=here)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def read_stl(path):
    from stl import mesh

    if not os.path.isfile(path):
        raise HarnessError(path)
    return np.asarray(mesh.Mesh.from_file(path).vectors, float)


def tree():
    return sorted(os.path.join(r, f)[2:] for r, _, fs in os.walk(".") for f in fs)


@st.composite
def vehicle_case(draw, kinds=CHEAP, n=(1, 4), ghosts=True, options=True):
    comps = []
    for i in range(draw(st.integers(*n))):
        c = {"c": draw(component_spec(kinds, closed=True)), "o": draw(option_spec(modifier=False)) if options else {}}
        k = draw(st.integers(0, 3))
        if k == 0:
            c["o"]["name"] = draw(st.sampled_from(["nose", "wing left", "a-b", "x_1", "körper"])) + str(i)
        elif k == 1:
            c["own"] = f"own{i}"
        if ghosts and draw(st.integers(0, 2)) == 0:
            c["o"]["ghost"] = True
        comps.append(c)
    return {
        "comps": comps,
        "prefix": draw(st.sampled_from([None, None, "pre", "run-2", "a b", "out/pre"])),
        "vname": draw(st.sampled_from([None, "veh", "my vehicle"])),
    }


def build(case):
    from hypervehicle import Vehicle

    veh = Vehicle()
    veh.configure(name=case["vname"], verbosity=0)
    for c in case["comps"]:
        extra = {"name": c["own"]} if "own" in c else {}
        veh.add_component(build_component(c["c"], **extra), **build_options(c["o"]))
    return veh


def vname(case):
    return case["vname"] or "vehicle"


def file_names(case):
    """Documented name of the file of every component, None for ghosts."""
    count, out = {}, []
    for c in case["comps"]:
        t = TYPES[c["c"]["k"]]
        no = count.get(t, 0)
        count[t] = no + 1
        name = c["o"].get("name") or c.get("own")
        if case["prefix"]:
            f = f"{case['prefix']}-{name}.stl" if name else f"{case['prefix']}-{t}-{no}.stl"
        else:
            f = f"{name}.stl" if name else f"{vname(case)}-{t}-{no}.stl"
        out.append(None if c["o"].get("ghost") else f)
    return out


def check_files(veh, names):
    for c, f in zip(veh.components, names):
        if f is not None:
            close(read_stl(f), mesh_of(c), 0.0, f"triangles read back from {f}")


def write(veh, case, **kw):
    if case["prefix"] and "/" in case["prefix"]:
        os.makedirs(os.path.dirname(case["prefix"]), exist_ok=True)
    if case["prefix"]:
        veh.to_stl(prefix=case["prefix"], **kw)
    else:
        veh.to_stl(**kw)


def output(case, ctx):
    with own_directory():
        veh = build(case)
        veh.generate()
        write(veh, case)
        names = file_names(case)
        want = sorted(f for f in names if f)
        require(tree() == want, f"files {tree()} instead of {want}")
        check_files(veh, names)
        shown = list(veh.get_non_ghost_components().values())
        require(
            [id(c) for c in shown] == [id(c) for c, f in zip(veh.components, names) if f],
            f"{len(shown)} components reported as visible instead of {len(want)}",
        )
        # the mesh is the union of the component's surfaces
        for c, f in zip(veh.components, names):
            if f is not None:
                close(read_stl(f), np.concatenate([s.vectors for s in c.surfaces.values()]), 0.0, f"{f} against the surfaces")
        if "twice" in case:
            # writing again after a change overwrites with the new geometry
            veh.transform([build_motion(case["twice"])])
            write(veh, case)
            require(tree() == want, f"files {tree()} instead of {want} after writing again")
            fresh = build(case)
            fresh.generate()
            fresh.transform([build_motion(case["twice"])])
            for c, f in zip(fresh.components, names):
                if f is not None:
                    w = mesh_of(c)
                    close(read_stl(f), w, 1e-6 * (1 + np.abs(w).max()), f"{f} written again")
            ctx.label("written again")
    for c in case["comps"]:
        ctx.label("tag" if "name" in c["o"] else "own name" if "own" in c else "no name")
        ctx.label("ghost" if c["o"].get("ghost") else "visible")
    ctx.label("prefix" if case["prefix"] else "no prefix")
    kinds = [TYPES[c["c"]["k"]] for c in case["comps"]]
    if len(case["comps"]) < 2:
        ctx.skip("one component")
    elif len(set(kinds)) < len(kinds):
        ctx.label("same type twice")


@st.composite
def output_case(draw):
    c = draw(vehicle_case())
    if draw(st.integers(0, 2)) == 0:
        c["twice"] = draw(motion_spec())
    return c


# ----------------------------------------------------------------- properties


@st.composite
def props_case(draw):
    c = draw(vehicle_case(kinds=("revolved", "swept"), n=(1, 3), options=False))
    c["dens"] = [draw(num(0.5, 3)) for _ in c["comps"]] if draw(st.integers(0, 3)) else None
    keys = draw(st.lists(st.sampled_from(["span", "wing area", "n", "ratio"]), unique=True, max_size=3))
    c["props"] = {k: draw(num(-100, 100)) for k in keys}
    c["twice"] = draw(st.booleans())
    if c["twice"] and draw(st.booleans()):
        # another value of a property, or one more, between the writes
        c["then"] = {k: draw(num(-100, 100)) for k in keys[:1] + ["late"][: draw(st.integers(0, 1))]}
    return c


def density_keys(case):
    count, out = {}, []
    for c in case["comps"]:
        t = TYPES[c["c"]["k"]]
        count[t] = count.get(t, 0) + 1
        out.append(c["o"].get("name") or c.get("own") or f"{t}_{count[t]}")
    return out


def properties(case, ctx):
    import pandas as pd

    with own_directory():
        veh = build(case)
        keys = density_keys(case)
        if case["dens"]:
            veh.analyse_after_generating(dict(zip(keys, case["dens"])))
        for k, x in case["props"].items():
            veh.add_property(k, x)
        veh.generate()
        write(veh, case)
        if case["twice"]:
            for k, x in case.get("then", {}).items():
                veh.add_property(k, x)
                ctx.label("changed between writes")
            write(veh, case)
        case = {**case, "props": {**case["props"], **case.get("then", {})}}
        stem = case["prefix"] or vname(case)
        d = f"{stem}_properties"
        stem = stem.split("/")[-1]
        want = [f for f in file_names(case) if f]
        if case["dens"]:
            want += [f"{d}/{stem}_{x}" for x in ("volmass.csv", "cog.txt", "moi.txt")]
        if case["props"]:
            want.append(f"{d}/{stem}_properties.csv")
        require(tree() == sorted(want), f"files {tree()} instead of {sorted(want)}")
        if case["dens"]:
            t = pd.read_csv(f"{d}/{stem}_volmass.csv", index_col=0)
            require(sorted(map(str, t.index)) == sorted(keys + ["vehicle"]), f"rows {list(t.index)} of the mass table")
            r = veh.analysis_results
            for name, x in (("volume", r["volume"]), ("mass", r["mass"]), ("area", veh.area)):
                close(t.loc["vehicle", name], x, 1e-9 * (1 + abs(x)), f"vehicle {name} in the table")
                for k in keys:
                    y = float(np.ravel(veh.component_properties[name][k])[0])
                    close(t.loc[k, name], y, 1e-6 * (1 + abs(y)), f"{name} of {k} in the table")
            close(np.fromfile(f"{d}/{stem}_cog.txt", sep=", "), np.ravel(r["cog"]), 1e-9 * (1 + np.abs(r["cog"]).max()), "centre of gravity file")
            close(np.fromfile(f"{d}/{stem}_moi.txt", sep=", "), np.ravel(r["moi"]), 1e-9 * (1 + np.abs(r["moi"]).max()), "inertia file")
            ctx.label("analysed")
        if case["props"]:
            s = pd.read_csv(f"{d}/{stem}_properties.csv", index_col=0).iloc[:, 0]
            require(sorted(s.index) == sorted(case["props"]), f"properties {list(s.index)} in the file")
            for k, x in case["props"].items():
                close(s[k], x, 1e-9 * (1 + abs(x)), f"property {k} in the file")
            ctx.label("user properties")
        check_files(veh, file_names(case))
    if not case["dens"] and not case["props"]:
        ctx.skip("nothing to write but meshes")


# ---------------------------------------------------------------------- merging


class FakePymesh(types.ModuleType):
    """Stands in for the optional merging package: reading, joining and
    writing triangles."""

    def __init__(self):
        super().__init__("pymesh")
        self.loaded = []
        io = types.SimpleNamespace(load_mesh=self.load, save_mesh=self.save)
        self.meshio = io
        self.load_mesh, self.save_mesh = self.load, self.save

    def load(self, f):
        self.loaded.append(str(f))
        if not os.path.isfile(f):
            raise IOError(f"no such file: {f}")
        return read_stl(f)

    def merge_meshes(self, ms):
        return np.concatenate(list(ms))

    def save(self, f, m, **kw):
        from stl import mesh

        out = mesh.Mesh(np.zeros(len(m), dtype=mesh.Mesh.dtype))
        out.vectors[:] = m
        out.save(f)

    def resolve_self_intersection(self, m, *a):
        return m

    def remove_degenerated_triangles(self, m, *a):
        return m, {}

    remove_duplicated_faces = remove_isolated_vertices = remove_obtuse_triangles = remove_degenerated_triangles


@st.composite
def merge_case(draw):
    c = draw(vehicle_case(n=(1, 4)))
    # something must be visible
    c["comps"][0]["o"].pop("ghost", None)
    c["old"] = draw(st.booleans())
    c["props"] = draw(st.booleans())
    return c


def merging(case, ctx):
    with own_directory():
        fake = FakePymesh()
        before = sys.modules.get("pymesh")
        sys.modules["pymesh"] = fake
        try:
            veh = build(case)
            if case["props"]:
                veh.add_property("span", 2.0)
            veh.generate()
            if case["old"]:
                # a file of an earlier run is no part of this vehicle
                open("other-part-0.stl", "w").close()
            write(veh, case, merge=True)
        finally:
            if before is None:
                del sys.modules["pymesh"]
            else:
                sys.modules["pymesh"] = before
        names = [f for f in file_names(case) if f]
        require(sorted(fake.loaded) == sorted(names), f"merged {sorted(fake.loaded)} instead of {sorted(names)}")
        out = f"{case['prefix'] or vname(case)}.stl"
        require(os.path.exists(out), f"no merged file {out} in {tree()}")
        got = read_stl(out)
        want = np.concatenate([mesh_of(c) for c, f in zip(veh.components, file_names(case)) if f])
        key = lambda v: v.reshape(len(v), 9)[np.lexsort(v.reshape(len(v), 9).T)]
        close(key(got), key(want), 0.0, "merged triangles")
        must_raise(lambda: write(veh, case, merge=["nose"]), "merging by name, which is not available")
    if any(c["o"].get("ghost") for c in case["comps"]):
        ctx.label("ghost")
    if len(names) < 2:
        ctx.skip("one file")


# ------------------------------------------------------------------- components


@st.composite
def comp_case(draw):
    return {"c": draw(component_spec(("revolved", "ogive", "swept", "cube", "sphere"))), "file": draw(st.sampled_from(["a.stl", "b c.stl", "sub/x.stl"]))}


def single(case, ctx):
    with own_directory():
        os.mkdir("sub")
        c = build_component(case["c"])
        c.generate_patches()
        c.to_stl(case["file"])
        require(tree() == [case["file"]], f"files {tree()} instead of {case['file']}")
        close(read_stl(case["file"]), mesh_of(c), 0.0, "triangles read back")
    ctx.label(case["c"]["k"])


# ------------------------------------------------------------------ same names


@st.composite
def names_case(draw):
    c = draw(vehicle_case(n=(2, 3), ghosts=False))
    c["comps"][0]["o"]["name"] = c["comps"][-1]["o"]["name"] = "pod"
    return c


def names(case, ctx):
    """Components that share a name tag have a file each."""
    with own_directory():
        veh = build(case)
        veh.generate()
        write(veh, case)
        got = [read_stl(f) for f in tree()]
        meshes = [mesh_of(c) for c in veh.components]
        alike = lambda a, b: a.shape == b.shape and bool(np.array_equal(a, b))
        for m in meshes[1:]:
            require(any(alike(m, g) for g in got), f"a component was not written: {len(got)} files for {len(meshes)} components")
        if not any(alike(meshes[0], g) for g in got):
            require(len(got) == len(meshes) - 1, f"{len(got)} files for {len(meshes)} components, two of them named alike")
            ctx.known_finding("same-name", "the file of the first of two components named alike is overwritten by the second")


FACETS = [
    Facet("output", output_case, output, 60, rule="more than one component"),
    Facet("output2", output_case, output, 60, rule="more than one component"),
    Facet("properties", props_case, properties, 60, rule="analysis results or user properties"),
    Facet("merging", merge_case, merging, 60, rule="more than one file"),
    Facet("names", names_case, names, 15, rule="every case"),
    Facet("single", comp_case, single, 40, rule="every case"),
    Facet("wingfin", lambda: vehicle_case(kinds=("fin", "wing"), n=(1, 2)), output, 6, rule="more than one component"),
]
