"""P36: the Mechatron graph mirrors the assembly; the FEA setup places every bolt and load."""
import contextlib
import io
import itertools
import json
import math
import os
import tempfile

from mc.core import Out, h
from mc.core import require as _require

META = {
    "id": "P36",
    "title": "Mechatron graphs mirror the assembly; FEA setup places every bolt and load",
    "statement": "The Mechatron snapshot of an assembly holds each part instance once, under the name its interfaces use, with its material, process, visual geometry and datums; one interface for each ordered pair of mated parts, with the joint, axis, constraints, insertion vector and bolt pattern its mates and datums give; and every load case. `mechatron_fea_setup` places one bolt per hole of each bolt pattern where the chain of interface origins and orientations from the world puts it, with head and shank as the part's bolt specification says, or spread evenly on the pitch circle where there are no holes. Stiffness follows from the bolt, placeholders are left out, and loads keep their part, place, unit direction and size.",
    "over": ["inputs", "sequences"],
    "forall": "every assembly of up to three instances with every sequence of up to three mates, and every graph, hole layout and bolt specification of the grids",
    "why": "The tests use parts named like their definitions, unit vectors, bolts without holes and no rotations; names, units and frames go wrong only in combinations.",
    "files": ["src/yapcad/assembly/mechatron_export.py", "src/yapcad/package/analysis/mechatron_fea_setup.py", "src/yapcad/assembly/load_case.py", "src/yapcad/assembly/assembly.py"],
    "mech": [["snapshot", "mechatron_export.py:to_mechatron_snapshot"], ["transforms", "mechatron_fea_setup.py:solve_world_transforms"], ["bolts", "mechatron_fea_setup.py:generate_bolts_for_interface"], ["loads", "mechatron_fea_setup.py:resolve_load_attach"]],
    "technique": "exhaustive enumeration of assemblies, mate sequences and graphs through the real exporter and setup, against an independent model of the snapshot and of the frames (rotation matrices)",
    "note": "mate kinds without a Mechatron equivalent are dropped by design; the consumer (Mechatron) is not part of this repository",
}


def require(ok, text, *a):
    if not ok:
        _require(False, text.format(*a))


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def close(a, b, eps=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= eps * max(1.0, abs(y)) for x, y in zip(a, b))


def same(got, want, where="snapshot"):
    """Deep equality, floats to rounding, no key more or less."""
    if isinstance(want, dict):
        require(isinstance(got, dict) and set(got) == set(want), "{}: holds {}, not {}", where, sorted(got) if isinstance(got, dict) else got, sorted(want))
        for k in want:
            same(got[k], want[k], f"{where}.{k}")
    elif isinstance(want, (list, tuple)):
        require(isinstance(got, (list, tuple)) and len(got) == len(want), "{}: {}, not {}", where, got, want)
        for i, (g, w) in enumerate(zip(got, want)):
            same(g, w, f"{where}[{i}]")
    elif isinstance(want, float) and not isinstance(got, bool) and isinstance(got, (int, float)):
        require(abs(got - want) < 1e-9 * max(1.0, abs(want)), "{}: {}, not {}", where, got, want)
    else:
        require(got == want and type(got) is type(want), "{}: {!r}, not {!r}", where, got, want)


def xyz(v):
    return {k: float(c) for k, c in zip("xyz", v)}


# ---------------------------------------------------------------- snapshot
# two part definitions with a datum of each kind, of other than unit length
DATUMS = {
    "bracket": (("p", "point", (1, 2, 3), None, None), ("ax", "axis", (0, 0, 5), (0, 2, 0), None), ("pl", "plane", (0, 0, 1), (0, 0, 3), None),
                ("ci", "circle", (4, 0, 0), (3, 0, 4), 2.5), ("fr", "frame", (9, 8, 7), None, None)),
    "motor": (("ax", "axis", (1, 1, 0), (1, 0, 1), None), ("pl", "plane", (0, 2, 0), (-1, 0, 0), None), ("ci", "circle", (0, 0, 0), (0, -2, 0), 1.0),
              ("p", "point", (0, 0, 0), None, None)),
}
# (given material, exported), (given process, exported)
MATS = {"bracket": (None, "PETG"), "motor": ("PETG-cf", "PetgCf")}
# (kind, datum on a, datum on b, angle in degrees)
MATES = (("coincident", "pl", "pl", 0), ("concentric", "ax", "ax", 0), ("tangent", "ci", "pl", 0), ("angle", "pl", "pl", 30), ("parallel", "ax", "ax", 0),
         ("perpendicular", "ax", "ax", 0), ("distance", "pl", "pl", 0), ("rigid", "pl", "pl", 0), ("revolute", "ax", "ax", 0), ("prismatic", "ax", "ax", 0),
         ("spherical", "p", "p", 0), ("coincident", "ci", "ci", 0), ("concentric", "ci", "ax", 0), ("coincident", "p", "p", 0))
MOTION = {"rigid": "Fixed", "revolute": "Revolute", "prismatic": "Prismatic", "spherical": "Ball"}
BILATERAL = {"concentric": "AxisCoincident", "coincident": "Coincident", "tangent": "Tangent", "angle": "Angle"}


def datum_of(part, name):
    return next(d for d in DATUMS[part] if d[0] == name)


def model(name, instances, mates, patterns, cases, extra=()):
    """The snapshot, from the description of the assembly alone."""
    parts = []
    for inst, d in instances:
        e = dict(extra).get(inst, {})
        ds = []
        for n, k, o, v, r in DATUMS[d]:
            x = {"name": n, "datum_type": k.capitalize(), "origin": xyz(o)}
            if k == "axis":
                x["direction"] = xyz(v)
            if k in ("plane", "circle"):
                x["normal"] = xyz(v)
            if r is not None:
                x["radius"] = float(r)
            ds.append(x)
        p = {"id": inst, "name": inst, "material": e.get("material", MATS[d])[1], "process": e.get("process", (None, "FDM"))[1], "datums": ds, "tags": []}
        if e.get("geoms"):
            p["geoms"] = e["geoms"]
        parts.append(p)
    of = dict(instances)
    groups = {}
    for a, b, m in mates:
        groups.setdefault((a, b), []).append(m)
    ifaces = []
    for (a, b), ms in groups.items():
        motion = next((m for m in ms if m[0] in MOTION), None)
        joint = {"type": "Fixed"}
        if motion:
            joint = {"type": MOTION[motion[0]]}
            if motion[0] in ("revolute", "prismatic"):
                joint["axis"] = [float(c) for c in datum_of(of[a], motion[1])[3]]
        cons, vec = [], None
        for m in ms:
            if m[0] in MOTION:
                continue
            d = datum_of(of[a], m[1])
            if vec is None and d[1] in ("plane", "circle"):
                ln = math.sqrt(sum(c * c for c in d[3]))
                vec = [0.0 - c / ln for c in d[3]]
            if m[0] == "parallel":
                cons.append({"type": "AxisAlign", "child_datum": m[2], "target_axis": [float(c) for c in d[3]]})
            elif m[0] in BILATERAL:
                c = {"type": "Concentric" if m[0] == "concentric" and motion else BILATERAL[m[0]], "parent_datum": m[1], "child_datum": m[2]}
                if m[0] == "angle":
                    c["angle_deg"] = float(m[3])
                cons.append(c)
        i = {"id": f"iface_{len(ifaces)}", "parent_part": a, "child_part": b, "joint": joint, "mate_constraints": cons}
        if vec:
            i["insertion_vector"] = vec
        if (a, b) in patterns:
            i["bolt_pattern"] = patterns[a, b]
        ifaces.append(i)
    out = {"parts": parts, "interfaces": ifaces, "loop_closures": [], "joint_couplings": [], "keyframes": [], "generators": [],
           "design_constraints": [], "last_script": f"yapcad-dsl: {name}"}
    if cases:
        out["load_cases"] = cases
    return out


def build(instances, mates, extra=()):
    from yapcad.assembly.assembly import Assembly
    from yapcad.assembly.datum import Datum, DatumType, PartDefinition
    from yapcad.assembly.mate import Mate, MateType
    asm = Assembly("rig")
    defs = {}
    for inst, d in instances:
        e = dict(extra).get(inst)
        if d not in defs or e:
            kw = {}
            mat = (e or {}).get("material", MATS[d])[0]
            if mat is not None:
                kw["material"] = mat
            p = PartDefinition(d, **kw)
            for n, k, o, v, r in DATUMS[d]:
                a = dict(name=n, datum_type=DatumType(k), origin=list(o) + [1])
                if k == "axis":
                    a["direction"] = list(v) + [0]
                elif k in ("plane", "circle"):
                    a["normal"] = list(v) + [0]
                elif k == "frame":
                    a["x_axis"], a["y_axis"] = [1, 0, 0, 0], [0, 1, 0, 0]
                if r is not None:
                    a["radius"] = r
                p.add_datum(Datum(**a))
            if e:
                for k in ("process", "geoms_in"):
                    if k in e:
                        setattr(p, {"process": "process", "geoms_in": "geoms"}[k], e[k][0] if k == "process" else e[k])
            else:
                defs[d] = p
        asm.add_part(defs[d] if not e else p, name=inst)
    for i, (a, b, m) in enumerate(mates):
        asm.add_mate(Mate(name=f"m{i}", mate_type=MateType(m[0]), part_a=a, datum_a=m[1], part_b=b, datum_b=m[2], angle=math.radians(m[3])))
    return asm


INST = (("base", "bracket"), ("motor_1", "motor"), ("motor_2", "motor"))
PAIRS = (("base", "motor_1"), ("motor_1", "base"), ("base", "motor_2"), ("motor_1", "motor_2"))


def snapshot_is(asm, want):
    from yapcad.assembly.mechatron_export import to_mechatron_json, to_mechatron_snapshot
    same(to_mechatron_snapshot(asm), want)
    same(json.loads(to_mechatron_json(asm)), want, "json")
    ids = {p["id"] for p in want["parts"]}
    for i in json.loads(to_mechatron_json(asm))["interfaces"]:
        require(i["parent_part"] in ids and i["child_part"] in ids, "an interface of {} and {}, which are not in the graph", i["parent_part"], i["child_part"])


def judge_graph(case):
    """case: a sequence of (index of pair, index of mate)."""
    mates = [(PAIRS[p] + (MATES[m],)) for p, m in case]
    of = dict(INST)
    mates = [m for m in mates if all(any(d[0] == m[2][1 + i] for d in DATUMS[of[m[i]]]) for i in (0, 1))]
    snapshot_is(build(INST, mates), model("rig", INST, mates, {}, []))
    return Out(f"mates {len(mates)}", states=[h(repr(case))], steps=len(mates) + 1)


GEOMS = (
    ({"type": "box", "size_mm": [10, 20, 30]}, {"type": "Box", "size": [0.01, 0.02, 0.03]}),
    ({"type": "Cylinder", "radius_mm": 5, "half_height_mm": 40, "pos_mm": [1, 2, 3]}, {"type": "Cylinder", "radius": 0.005, "half_height": 0.04, "pos": [0.001, 0.002, 0.003]}),
    ({"type": "cylinder", "radius": 0.5, "half_height": 2}, {"type": "Cylinder", "radius": 0.5, "half_height": 2.0}),
    ({"type": "sphere", "radius_mm": 7, "rgba": [1, 0, 0, 1]}, {"type": "Sphere", "radius": 0.007, "rgba": [1.0, 0.0, 0.0, 1.0]}),
    ({"type": "CAPSULE", "radius_mm": 2, "half_height_mm": 9, "pos_mm": [0, 0, 0]}, {"type": "Capsule", "radius": 0.002, "half_height": 0.009, "pos": [0.0, 0.0, 0.0]}),
    ({"type": "mesh", "path": "a.stl", "scale": 2}, {"type": "Mesh", "path": "a.stl", "scale": 2.0}),
    ({"type": "torus", "radius_mm": 2}, None),
    ({}, None),
)
MATERIALS = (("PLA", "PLA"), ("petg", "PETG"), ("Aluminum", "Aluminum"), ("STEEL", "Steel"), ("pa_cf", "PaCf"), ("pa-cf", "PaCf"), ("petg_cf", "PetgCf"), ("TPU", "TPU"),
             ("abs", "ABS"), ("asa", "ASA"), ("pc", "PC"), ("nylon", "Nylon"), ("stainless", "Stainless"), ("brass", "Brass"), ("Titanium", "Titanium"),
             ("unobtainium", "PETG"), ("", "PETG"))


def judge_part(case):
    mat, proc, geoms = case
    e = {"material": MATERIALS[mat], "process": ((None, "FDM"), ("CNC", "CNC"), ("WAAM", "WAAM"), ("", "FDM"))[proc], "geoms_in": [GEOMS[i][0] for i in geoms],
         "geoms": [GEOMS[i][1] for i in geoms if GEOMS[i][1] is not None]}
    inst = (("arm", "bracket"), ("other", "motor"))
    snapshot_is(build(inst, [], (("arm", e),)), model("rig", inst, [], {}, [], (("arm", e),)))
    return Out("part", states=[h(repr(case))], steps=1)


SPECS = {"1-4-20-x-1in-button-head-shcs": (6.35, 25.4), "m5-x-16-shcs": (5.0, 16.0), "m6-x-20-shcs": (6.0, 20.0), "m99": (5.0, None), "PLACEHOLDER-m5": (0.0, None)}


def judge_loads(case):
    """Bolt patterns and load cases: in the graph, and from there in the FEA setup."""
    from yapcad.assembly.load_case import BoltPattern, LoadAttach, LoadCase
    from yapcad.assembly.mechatron_export import to_mechatron_json
    from yapcad.package.analysis import mechatron_fea_setup as fea
    pats, loads = case
    mates = [PAIRS[p] + (MATES[0],) for p in (0, 3)] + [PAIRS[0] + (MATES[1],)]
    asm = build(INST, mates)
    wp, wl = {}, []
    for p, n, spec, acc in pats:
        asm.add_bolt_pattern(*PAIRS[p], BoltPattern(40 + n, n, spec, list(acc)))
        wp[PAIRS[p]] = {"pcd_mm": float(40 + n), "n_bolts": n, "bolt_spec": spec, "access_direction": [float(c) for c in acc]}
    for i, (part, iface, frame, d, newton, g, bolt) in enumerate(loads):
        asm.add_load_case(LoadCase(id=f"LC{i}", name=f"load {i}", group="custom", direction=list(d), magnitude_n=newton, magnitude_g=g, coordinate_frame=frame,
                                   attach=LoadAttach(part=part, position=[1.0 + i, 2.0, 3.0], interface=iface, clock_deg=30.0 * i, bolt_index=bolt), warn=bool(i), status="confirmed"))
        w = {"id": f"LC{i}", "name": f"load {i}", "group": "custom", "direction": [float(c) for c in d], "coordinate_frame": frame, "description": "", "source": "", "status": "confirmed",
             "attach": {"part": part, "position": [1.0 + i, 2.0, 3.0], "interface": iface, "clock_deg": 30.0 * i, "bolt_index": bolt}}
        for k, v in (("magnitude_n", newton), ("magnitude_g", g)):
            if v is not None:
                w[k] = v
        if i:
            w["warn"] = True
        wl.append(w)
    want = model("rig", INST, mates, wp, wl)
    snapshot_is(asm, want)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stderr(io.StringIO()):
        f = os.path.join(tmp, "graph.json")
        with open(f, "w") as fh:
            fh.write(to_mechatron_json(asm))
        for lc in [None] + wl + ["LC99"]:
            try:
                s = fea.prepare(f, lc["id"] if isinstance(lc, dict) else lc)
            except KeyError:
                require(lc == "LC99", "load case {} is not found", lc)
                continue
            require(lc != "LC99", "load case LC99 was found")
            n = {}
            for i in want["interfaces"]:
                bp = i.get("bolt_pattern")
                if bp and not bp["bolt_spec"].startswith("PLACEHOLDER"):
                    n[i["id"]] = (bp["n_bolts"], i["parent_part"], i["child_part"])
            got = {}
            for b in s.bolts:
                got.setdefault(b.interface_id, []).append(b)
            require({k: (len(v), v[0].parent_part, v[0].child_part) for k, v in got.items()} == n, "bolts {}, not {}", {k: len(v) for k, v in got.items()}, n)
            require([i["id"] for i in s.raw_interfaces] == list(n), "interfaces {} with bolts, not {}", s.raw_interfaces, list(n))
            if lc is None:
                require(s.load_case_id is None and s.load_attach is None and s.raw_load_case is None, "a load nobody asked for: {}", s.load_attach)
                continue
            a = s.load_attach
            ln = math.sqrt(sum(c * c for c in lc["direction"]))
            at = lc["attach"]
            same(s.raw_load_case, lc, "load case")
            require(s.load_case_id == lc["id"] == a.load_case_id and (a.part, a.interface_id, a.bolt_index, a.clock_deg, a.coordinate_frame) ==
                    (at["part"], at["interface"], at["bolt_index"], at["clock_deg"], lc["coordinate_frame"]), "load {} attached as {}", lc, a)
            require(close(a.position_mm, at["position"]) and close(a.direction_unit, [c / ln for c in lc["direction"]]), "load at {} along {}, not {}", a.position_mm, a.direction_unit, lc)
            require(a.magnitude_n == (lc.get("magnitude_n") or 0.0), "load of {} N, not {}", a.magnitude_n, lc)
            for p in ((1.0, 2.0, 3.0), a.direction_unit):
                require(close(fea.vehicle_to_mesh_position(p), (p[1], p[2], p[0])) and close(fea.vehicle_to_mesh_direction(p), (p[1], p[2], p[0])), "frames of {}", p)
    return Out("loads", states=[h(repr(case))], steps=len(loads) + len(pats) + 1)


# ---------------------------------------------------------------- FEA setup on given graphs
S2 = math.sqrt(0.5)
# quaternion x, y, z, w and the rotation it is
ROT = {
    "none": (None, ((1, 0, 0), (0, 1, 0), (0, 0, 1))),
    "id": ([0, 0, 0, 1], ((1, 0, 0), (0, 1, 0), (0, 0, 1))),
    "z90": ([0, 0, S2, S2], ((0, -1, 0), (1, 0, 0), (0, 0, 1))),
    "x90": ([S2, 0, 0, S2], ((1, 0, 0), (0, 0, -1), (0, 1, 0))),
    "y180": ([0, 1, 0, 0], ((-1, 0, 0), (0, 1, 0), (0, 0, -1))),
    "xyz": ([0.5, 0.5, 0.5, 0.5], ((0, 0, 1), (1, 0, 0), (0, 1, 0))),
}


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def app(m, v):
    return tuple(sum(m[i][k] * v[k] for k in range(3)) for i in range(3))


def plus(a, b, k=1.0):
    return tuple(x + k * y for x, y in zip(a, b))


ORIG = {"o": [0, 0, 0], "q": [10, -20, 30], "-": None}
IDM = ROT["id"][1]


def frames(links):
    """World frame of every part reached from the world, each placed by the first chain in order of distance."""
    out, todo = {"world": ((0.0, 0.0, 0.0), IDM)}, ["world"]
    for cur in todo:
        t, m = out[cur]
        for a, b, o, r in links:
            if a == cur and b not in out:
                out[b] = (plus(t, app(m, ORIG[o] or (0, 0, 0))), mul(m, ROT[r][1]))
                todo.append(b)
    return out


def iface(i, a, b, o, r):
    d = {"id": f"i{i}", "parent_part": a, "child_part": b}
    if ORIG[o] is not None:
        d["origin"] = list(ORIG[o])
    if ROT[r][0] is not None:
        d["orientation"] = list(ROT[r][0])
    return d


TREES = ((("world", "A"), ("A", "B")), (("A", "B"), ("world", "A")), (("world", "A"), ("world", "B")), (("world", "A"), ("A", "B"), ("world", "B")), (("A", "B"),),
         (("world", "A"), ("A", "B"), ("B", "A")), (("world", "A"), ("A", "B"), ("B", "world")))


def judge_frames(case):
    from yapcad.package.analysis import mechatron_fea_setup as fea
    tree, how = case
    links = [e + x for e, x in zip(TREES[tree], how)]
    got = fea.solve_world_transforms({"interfaces": [iface(i, *ln) for i, ln in enumerate(links)]})
    want = frames(links)
    require(set(got) == set(want), "frames of {}, not {}", sorted(got), sorted(want))
    for p, (t, m) in want.items():
        require(close(got[p][0], t), "{} is at {}, not {}", p, got[p][0], t)
        x, y, z, w = got[p][1]
        rot = ((1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)), (2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)),
               (2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)))
        require(all(close(a, b) for a, b in zip(rot, m)), "{} is turned by {}", p, got[p][1])
    return Out("frames", states=[h(repr(case))], steps=len(links))


def holes(prefix, kind, n, z, skip):
    out = []
    for i in range(n):
        w = math.tau * i / n + 0.3
        d = (0.0, 0.0, -2.0 if prefix == "top" else 1.0) if kind == "axial" else (-3 * math.cos(w), -3 * math.sin(w), 0.0)
        e = {"name": f"{prefix}_bolt_hole_{i}", "datum_type": "Axis", "origin": {"x": 20 * math.cos(w), "y": 20 * math.sin(w), "z": z}}
        if i != skip:
            e["direction"] = dict(zip("xyz", d))
        out.append((i, (20 * math.cos(w), 20 * math.sin(w), z), None if i == skip else tuple(c / math.sqrt(sum(k * k for k in d)) for c in d), e))
    return out


def judge_bolts(case):
    """One bolted interface A-B in the tree world-A-B."""
    import yaml
    from yapcad.package.analysis import mechatron_fea_setup as fea
    oa, ra, ob, rb, kind, tops, bots, skip, n, spec, own, extra, access = case
    links = [("world", "A", oa, ra), ("A", "B", ob, rb)]
    # holes: on A at top (z=50) and bottom (z=0); B has its own at other places
    ha = {"top": holes("top", kind, tops, 50.0, skip), "bot": holes("bot", kind, bots, 0.0, skip)}
    hb = {"top": holes("top", kind, tops, 90.0, skip), "bot": holes("bot", kind, bots, -5.0, skip)}
    circ = lambda z: {"origin": {"x": 0, "y": 0, "z": z}, "datum_type": "Circle"}
    parts = []
    for pid, hs, zt, zb in (("A", ha, 50, 0), ("B", hb, 90, -5)):
        ds = [dict(circ(zt), name="top_bolt_circle")] * (tops > 0) + [dict(circ(zb), name="bot_bolt_circle")] * (bots > 0)
        # holes in another order than their numbers
        parts.append({"id": pid, "datums": ds + [x[3] for x in reversed(hs["top"] + hs["bot"])]})
    ib = iface(1, *links[1])
    ib["bolt_pattern"] = {"pcd_mm": 40.0, "n_bolts": n, "bolt_spec": spec, "world_z_mm": 77.0}
    if access:
        ib["bolt_pattern"]["access_direction"] = list(access)
    graph = {"parts": parts, "interfaces": [iface(0, *links[0]), ib]}
    side, group = None, {}
    if own:
        owner, side, orient = own
        head_ax, head_rad, shank = extra
        group = {"mates_to": {"part": "B" if owner == "A" else "A"}, "bolt_circle_ref": side + "_bolt_circle", "head_axial_offset_mm": head_ax, "head_radial_offset_mm": head_rad}
        if orient:
            group["orientation"] = orient
        if shank:
            group["shank_length_mm"] = shank
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stderr(io.StringIO()):
        d = os.path.join(tmp, "a", "b")
        os.makedirs(d)
        f = os.path.join(d, "graph.json")
        with open(f, "w") as fh:
            json.dump(graph, fh)
        if own:
            # a group of another joint comes first
            y = {"bolts_per_part": {owner: {"other": {"mates_to": {"part": "C"}, "bolt_circle_ref": "bot", "shank_length_mm": 1}, "joint": group}}}
            with open(os.path.join(d, "bolts_per_part.yaml"), "w") as fh:
                yaml.safe_dump(y, fh)
        got = fea.prepare(f).bolts
    if spec.startswith("PLACEHOLDER"):
        require(not got, "{} bolts that are not specified yet", len(got))
        return Out("placeholder", states=[h(repr(case))], steps=1)
    # ---- where they are
    dia, length = SPECS[spec]
    area = math.pi * (dia * 1e-3) ** 2 / 4
    owner = own[0] if own else "A"
    if not side:
        z = (ORIG[ob] or (0, 0, 0))[2]
        side = "top" if tops and (not bots or abs(z - 50) <= abs(z)) else "bot"
    use = [x for x in (ha if owner == "A" else hb)[side] if x[2] is not None][:n]
    want = []
    if use:
        t, m = frames(links)[owner]
        radial = (own[2] if own and own[2] else "axial" if abs(use[0][2][2]) > 0.8 else "radial") == "radial"
        shank = (own and extra[2]) or length or 25.4
        for i, o, v, _ in use:
            off = (-extra[1] if radial else extra[0]) if own else 0.0
            head = plus(o, v, off)
            want.append((i, plus(t, app(m, head)), plus(t, app(m, plus(head, v, shank))), app(m, v), math.degrees(math.atan2(o[1], o[0])) % 360))
    else:
        acc = access or (0.0, 0.0, 1.0)
        ln = math.sqrt(sum(c * c for c in acc)) or 1.0
        for i in range(n):
            w = math.tau * i / n
            p = (20 * math.cos(w), 20 * math.sin(w), 77.0)
            want.append((i, p, p, tuple(c / ln for c in acc), 360.0 * i / n))
    require(len(got) == len(want), "{} bolts, not {}", len(got), len(want))
    for b, (i, head, tip, axis, clock) in zip(got, want):
        require(b.bolt_index == i and (b.interface_id, b.parent_part, b.child_part, b.bolt_spec, b.pcd_mm) == ("i1", "A", "B", spec, 40.0), "bolt {}: {}", i, b)
        require(close(b.parent_world_mm, head, 1e-7), "bolt {}: head at {}, not {}", i, b.parent_world_mm, head)
        require(close(b.child_world_mm, tip, 1e-7), "bolt {}: tip at {}, not {}", i, b.child_world_mm, tip)
        require(close(b.axis_unit, axis, 1e-7), "bolt {}: along {}, not {}", i, b.axis_unit, axis)
        require(min(abs(b.clock_deg - clock), 360 - abs(b.clock_deg - clock)) < 1e-6 and 0 <= b.clock_deg < 360, "bolt {}: at {} degrees, not {}", i, b.clock_deg, clock)
        require(close((b.k_axial_N_per_m, b.k_shear_N_per_m), (200e9 * area / 0.012, 80e9 * area / 0.012)), "bolt {}: stiffness {} {}", i, b.k_axial_N_per_m, b.k_shear_N_per_m)
    return Out("holes" if use else "circle", states=[h(repr(case))], steps=len(want) + 1)


def judge_yaml(case):
    """Which bolts_per_part.yaml is used: the nearest one; one that cannot be read counts as none."""
    from yapcad.package.analysis import mechatron_fea_setup as fea
    files, = case
    parts = [{"id": "A", "datums": [x[3] for x in holes("bot", "axial", 3, 0.0, None)]}, {"id": "B"}]
    ib = iface(1, "A", "B", "o", "id")
    ib["bolt_pattern"] = {"pcd_mm": 40.0, "n_bolts": 3, "bolt_spec": "m5-x-16-shcs"}
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stderr(io.StringIO()):
        dirs = [os.path.join(tmp, "a", "b", "c"), os.path.join(tmp, "a", "b"), os.path.join(tmp, "a")]
        os.makedirs(dirs[0])
        f = os.path.join(dirs[0], "graph.json")
        with open(f, "w") as fh:
            json.dump({"parts": parts, "interfaces": [iface(0, "world", "A", "o", "id"), ib]}, fh)
        for k, (d, what) in enumerate(zip(dirs, files)):
            text = {"": None, "ok": "bolts_per_part:\n  A:\n    g:\n      mates_to: {part: B}\n      bolt_circle_ref: bot\n      shank_length_mm: %d\n" % (100 + k),
                    "bad": "bolts_per_part: [\n", "empty": "", "none": "other: 1\n", "null": "bolts_per_part:\n"}[what]
            if text is not None:
                with open(os.path.join(d, "bolts_per_part.yaml"), "w") as fh:
                    fh.write(text)
        got = fea.prepare(f).bolts
    first = next((k for k, w in enumerate(files) if w), None)
    ln = 16.0 if first is None or files[first] != "ok" else 100.0 + first
    require(len(got) == 3 and all(abs(math.dist(b.parent_world_mm, b.child_world_mm) - ln) < 1e-9 for b in got), "shanks of {}, not {}", [math.dist(b.parent_world_mm, b.child_world_mm) for b in got], ln)
    return Out("yaml", states=[h(repr(case))], steps=3)


def judge_origin(case):
    """Without holes: the pitch circle is about the origin that was given, or at the pattern's height."""
    from yapcad.package.analysis import mechatron_fea_setup as fea
    n, pcd, z, given, child, acc = case
    bp = {"pcd_mm": pcd, "n_bolts": n, "bolt_spec": "m6-x-20-shcs"}
    if z is not None:
        bp["world_z_mm"] = z
    if acc:
        bp["access_direction"] = list(acc)
    got = fea.generate_bolts_for_interface({"id": "j", "parent_part": "A", "child_part": "B", "bolt_pattern": bp}, given, child)
    o = given or (0.0, 0.0, z or 0.0)
    c = child or o
    acc = acc or (0.0, 0.0, 1.0)
    ln = math.sqrt(sum(k * k for k in acc))
    require(len(got) == n, "{} bolts, not {}", len(got), n)
    for i, b in enumerate(got):
        w = math.tau * i / n
        v = (pcd / 2 * math.cos(w), pcd / 2 * math.sin(w), 0.0)
        require(close(b.parent_world_mm, plus(o, v), 1e-7) and close(b.child_world_mm, plus(c, v), 1e-7) and close(b.axis_unit, [k / ln for k in acc]), "bolt {}: {}", i, b)
    require(fea.generate_bolts_for_interface({"id": "j"}) == [], "bolts without a pattern")
    return Out("origin", states=[h(repr(case))], steps=n)


def run(ctx):
    acts = [(p, m) for p in range(len(PAIRS)) for m in range(len(MATES))]
    few = [(p, m) for p in (0, 1, 3) for m in (0, 1, 3, 4, 7, 8, 11)]
    graphs = [c for k in (0, 1, 2) for c in itertools.product(acts, repeat=k)]
    graphs += list(itertools.product(few if not ctx.thorough else acts[:42], repeat=3))
    part = [(m, 0, ()) for m in range(len(MATERIALS))] + [(0, p, ()) for p in range(4)] + [(0, 1, g) for k in (1, 2) for g in itertools.product(range(len(GEOMS)), repeat=k)]
    pats = [()] + [((0, n, s, a),) for n in (1, 3, 8) for s in SPECS for a in ((0, 0, 1), (0, 3, -4))] + [((0, 4, "m5-x-16-shcs", (0, 0, 1)), (p, 6, s, (1, 0, 0))) for p in (1, 2, 3) for s in ("m6-x-20-shcs", "PLACEHOLDER-m5")]
    one = [(part_, i, f, d, n, g, b) for part_, i in (("_assembly", None), ("motor_1", "iface_0"), ("base", None)) for f in ("vehicle", "mesh")
           for d in ((1, 0, 0), (0, 3, -4), (0.6, 0, 0.8)) for n, g in ((100.0, None), (None, 5.0), (0.0, 2.0)) for b in (None, 0, 2)]
    loads = [(p, (ld,)) for p in pats[:4] for ld in one] + [(p, (one[0], one[-1])) for p in pats]
    os_, rs = tuple(ORIG), tuple(ROT)
    how = list(itertools.product(os_, rs))
    fr = [(t, w) for t, tree in enumerate(TREES) for w in (itertools.product(how, repeat=len(tree)) if len(tree) < 3 else itertools.product(how[::2] if not ctx.thorough else how, how[1::3], how[::4]))]
    owns = [None] + [(o, s, r) for o in ("A", "B") for s in ("top", "bot") for r in ("", "axial", "radial")]
    bolts = [("q", ra, ob, rb, kind, tops, bots, skip, n, spec, own, extra, acc)
             for ra, ob, rb in (("none", "o", "none"), ("z90", "q", "x90"), ("xyz", "q", "id"), ("y180", "-", "xyz"), ("x90", "o", "z90"))
             for kind in ("axial", "radial")
             for tops, bots in ((4, 3), (0, 4), (4, 0), (0, 0))
             for skip in (None, 0)
             for n in (2, 4, 6)
             for own in owns
             for spec in (("m5-x-16-shcs",) if own else tuple(SPECS))
             for extra in (((0.0, 0.0, 0.0), (1.5, 2.5, 30.0)) if own else ((0.0, 0.0, 0.0),))
             for acc in ((None,) if tops or bots else (None, (0, 3, -4)))]
    kinds = ("", "ok", "bad", "empty", "none", "null")
    org = [(n, pcd, z, g, c, a) for n in (1, 2, 5, 12) for pcd in (10.0, 120.5) for z in (None, 0.0, 55.0) for g in (None, (1.0, 2.0, 3.0)) for c in (None, (4.0, 5.0, 6.0)) for a in (None, (0, 3, -4))]
    ctx.explore(judge, [("graph", graphs, 100), ("part", part, 16), ("loads", loads, 16), ("frames", fr, 100), ("bolts", bolts, 64),
                        ("yaml", [(f,) for f in itertools.product(kinds, repeat=3)], 32), ("origin", org, 32)])
