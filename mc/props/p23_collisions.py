"""P23: collisions are told from designed overlaps."""
import itertools
import json
import math
import os
import tempfile

from mc.core import Out, require

META = {
    "id": "P23",
    "title": "Collision checks find what overlaps and excuse only designed interfaces",
    "statement": "A check of two placed parts collides exactly when their boxes meet (or, for meshes, when one reaches well into the other), whatever was checked before, and what cannot be checked is an error and never a clear result; an assembly check judges every pair once, except those to skip, and its summary counts them. A collision is excused exactly when the interfaces of the two parts that meet are all compatible and there is one, by the interfaces registered at the time. The registry, the rules for gears and threads, and results stored as dictionaries are consistent over any history.",
    "over": ["inputs", "histories"],
    "forall": "every history of registrations, pair of interfaces, pose of parts, and choice of pairs of the grids",
    "why": "A stale registry, a cached mesh that moved or a pair that is passed over shows only for particular histories and poses; the suite has no test of collisions.",
    "files": ["src/yapcad/collision/detector.py", "src/yapcad/collision/registry.py", "src/yapcad/collision/interface.py", "src/yapcad/collision/result.py", "src/yapcad/collision/gear_interface.py", "src/yapcad/collision/thread_interface.py"],
    "mech": [["checks", "collision/detector.py:CollisionDetector"], ["designed overlaps", "collision/registry.py:InterfaceRegistry"], ["rules", "collision/gear_interface.py, collision/thread_interface.py"]],
    "technique": "explicit enumeration of registration histories and poses against the real code, compared with a reference model of the registry and exact interval arithmetic",
    "note": "exact collisions need a kernel that is not installed; mesh checks sample points of surfaces, so that only clear cases are judged, with containment in convex meshes computed by the check (the library for it is not installed); interfaces with skew axes are left out",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def gear(name, part, center=(0, 0, 0), **kw):
    from yapcad.collision.gear_interface import GearMeshInterface
    return GearMeshInterface(name=name, part_name=part, center=center, **kw)


def thread(name, part, center=(0, 0, 0), **kw):
    from yapcad.collision.thread_interface import ThreadInterface
    return ThreadInterface(name=name, part_name=part, center=center, **kw)


# name, part, kind, centre x, variant: radius 6 gears of module 1 and 10 teeth, or threads of radius 1.5
POOL = (("g1", "A", "gear", 0, 1.0), ("g2", "B", "gear", 10, 1.0), ("g3", "B", "gear", 10, 2.0), ("t1", "A", "thread", 50, 0), ("t2", "C", "thread", 50, 1),
        ("t3", "B", "thread", 50, 1), ("g4", "C", "gear", 500, 1.0), ("g1", "C", "gear", 0, 1.0), ("t4", "B", "thread", 50, 0))


def pool(i):
    n, p, k, x, v = POOL[i]
    if k == "gear":
        return gear(n, p, (x, 0, 0), module=v, teeth=10)
    return thread(n, p, (x, 0, 0), is_internal=bool(v))


def extent(i):
    n, p, k, x, v = POOL[i]
    return (v * 12 / 2, 10) if k == "gear" else (1.5, 6)


def meets(i, j):
    return abs(POOL[i][3] - POOL[j][3]) < extent(i)[0] + extent(j)[0] + .1


def compat(i, j):
    a, b = POOL[i], POOL[j]
    return a[2] == b[2] and (a[4] == b[4] if a[2] == "gear" else a[4] != b[4])


def excused(reg, a, b):
    """reg: names in order -> pool index"""
    pairs = [compat(i, j) for i in reg.values() if POOL[i][1] == a for j in reg.values() if POOL[j][1] == b and meets(i, j)]
    return bool(pairs) and all(pairs), pairs


def judge_registry(case):
    from yapcad.collision.interface import InterfaceType
    from yapcad.collision.registry import InterfaceRegistry
    R, M, objs = InterfaceRegistry(), {}, {}
    for op, arg in case:
        if op == "add":
            o = pool(arg)
            try:
                R.register(o)
                done = True
            except ValueError:
                done = False
            require(done == (POOL[arg][0] not in M), "registering %r a second time" % (POOL[arg],))
            if done:
                M[POOL[arg][0]], objs[POOL[arg][0]] = arg, o
        elif op == "many":
            try:
                R.register_many([pool(i) for i in arg])
            except ValueError:
                pass
            for i in arg:
                if POOL[i][0] in M:
                    break
                M[POOL[i][0]] = i
                objs[POOL[i][0]] = R.get(POOL[i][0])
        elif op == "del":
            got = R.unregister(arg)
            require(got is objs.get(arg) if arg in M else got is None, "unregister returns %r" % (got,))
            M.pop(arg, None)
            objs.pop(arg, None)
        else:
            R.clear()
            M, objs = {}, {}
        names = list(M)
        require(len(R) == len(M) and [x.name for x in R] == names and [x.name for x in R.get_all_interfaces()] == names, "the registry holds %r for %r" % ([x.name for x in R], names))
        require(set(R.get_all_parts()) == {POOL[i][1] for i in M.values()} and len(R.get_all_parts()) == len(set(R.get_all_parts())), "parts %r" % R.get_all_parts())
        require([d["name"] for d in R.to_dict()["interfaces"]] == names, "as a dictionary %r" % R.to_dict())
        for n in ("g1", "g2", "g3", "g4", "t1", "t2", "t3", "t4"):
            require((n in R) == (n in M) and R.get(n) is objs.get(n), "%s: %r" % (n, R.get(n)))
        for t, k in ((InterfaceType.GEAR_MESH, "gear"), (InterfaceType.THREAD, "thread")):
            want = [n for n, i in M.items() if POOL[i][2] == k]
            require([x.name for x in R.get_interfaces_by_type(t)] == want, "of type %s: %r" % (k, R.get_interfaces_by_type(t)))
        for p in "ABCD":
            want = [n for n, i in M.items() if POOL[i][1] == p]
            require([x.name for x in R.get_interfaces_for_part(p)] == want and R.has_interfaces(p) == bool(want), "of the part %s: %r" % (p, R.get_interfaces_for_part(p)))
        for a, b in itertools.permutations("ABC", 2):
            ok, pairs = excused(M, a, b)
            got, results = R.check_overlap_compatibility(a, b)
            require(got == ok and [r.is_compatible for r in results] == pairs, "%s and %s: %r %r, where the pairs that meet are %r" % (a, b, got, results, pairs))
            used = {POOL[i][0] for i in M.values() if POOL[i][1] == a and any(POOL[j][1] == b and meets(i, j) for j in M.values())} | \
                   {POOL[j][0] for j in M.values() if POOL[j][1] == b and any(POOL[i][1] == a and meets(i, j) for i in M.values())} if ok else set()
            got = R.get_compatible_interface_names(a, b)
            require(set(got) == used and len(got) == len(used), "names %r for %r" % (got, used))
        for n, i in M.items():
            got = [(o.name, r.is_compatible) for o, r in R.find_compatible_interfaces(objs[n])]
            require(got == [(m, True) for m, j in M.items() if m != n and compat(i, j)], "compatible with %s: %r" % (n, got))
    return Out("registry %d" % len(M), steps=len(case))


def judge_meet(case):
    """cylinders with parallel axes"""
    r1, h1, r2, h2, c, axis, s1, s2, tol = case
    A = thread("a", "A", (1, 2, 3), axis=tuple(s1 * x for x in axis), major_diameter=2 * r1, engagement_length=h1)
    n = math.sqrt(sum(x * x for x in axis))
    z = [x / n for x in axis]
    u = [-z[1], z[0], 0] if abs(z[2]) < .9 else [1, 0, 0]
    d = sum(a * b for a, b in zip(u, z))
    u = [a - d * b for a, b in zip(u, z)]
    m = math.sqrt(sum(x * x for x in u))
    u = [x / m for x in u]
    pos = tuple(o + c[0] * a + c[1] * b for o, a, b in zip((1, 2, 3), u, z))
    B = gear("b", "B", pos, axis=tuple(s2 * x for x in axis), module=r2 / 6, teeth=10, face_width=h2)
    want = abs(c[0]) < r1 + r2 + tol and abs(c[1]) < h1 / 2 + h2 / 2 + tol
    for p, q in ((A, B), (B, A)):
        require(bool(p.overlaps_with(q, tolerance=tol)) == want, "cylinders %r that %s" % (case, "meet" if want else "do not meet"))
    return Out("meet %s" % want)


def judge_gears(case):
    a, b = (dict(zip(("module", "teeth", "pressure_angle", "face_width", "helix_angle", "backlash"), x)) for x in case)
    from yapcad.collision.gear_interface import check_gear_mesh_collision
    A, B = gear("a", "A", **a), gear("b", "B", **b)
    for g, d in ((A, a), (B, b)):
        m, n = d["module"], d["teeth"]
        dims = (g.pitch_diameter, g.addendum, g.dedendum, g.outside_diameter, g.root_diameter, g.base_diameter)
        want = (m * n, m, 1.25 * m, m * (n + 2), m * (n - 2.5), m * n * math.cos(math.radians(d["pressure_angle"])))
        require(all(abs(x - y) < 1e-9 for x, y in zip(dims, want)), "dimensions %r of %r" % (dims, d))
        require(g.get_bounding_cylinder() == (g.outside_diameter / 2, d["face_width"]), "bounds %r" % (g.get_bounding_cylinder(),))
    want = a["module"] == b["module"] and abs(a["pressure_angle"] - b["pressure_angle"]) <= .5
    dist = a["module"] * (a["teeth"] + b["teeth"]) / 2
    for p, q in ((A, B), (B, A)):
        r = p.check_compatibility(q)
        require(r.is_compatible == want, "%r and %r: %r" % (a, b, r))
        helix = want and abs(a["helix_angle"] + b["helix_angle"]) > .5
        face = want and min(a["face_width"], b["face_width"]) < a["module"]
        require(len(r.warnings) == helix + face, "warnings %r" % r.warnings)
        require(not p.check_compatibility(thread("t", "C")).is_compatible and not thread("t", "C").check_compatibility(p).is_compatible, "a gear meshes with a thread")
        if not want:
            require(not check_gear_mesh_collision(p, q, dist).is_compatible, "gears that do not mesh at a distance")
            continue
        require(r.overlap_volume > 0 and r.required_clearance == p.backlash, "clearance %r" % r)
        require(abs(p.get_center_distance(q) - dist) < 1e-9, "distance %r" % p.get_center_distance(q))
        for off in (-.2, -.05, 0, .05, .2):
            for tol in (.1, .01):
                c = check_gear_mesh_collision(p, q, dist + off, tol)
                require(c.is_compatible == (abs(off) <= tol), "gears %g from their distance: %r" % (off, c))
                if c.is_compatible:
                    require(abs(c.required_clearance - (p.backlash - off)) < 1e-9, "clearance %r" % c)
        require(len(p.check_compatibility(q).warnings) == helix + face, "warnings grow")
    return Out("gears %s" % want)


def judge_threads(case):
    from yapcad.collision.thread_interface import ThreadType
    (s1, l1, i1, t1), (s2, l2, i2, t2) = case
    mk = lambda s, l, i, t, n: thread(n, n, major_diameter=s[0], pitch=s[1], engagement_length=l, is_internal=bool(i), thread_type=list(ThreadType)[t])
    A, B = mk(s1, l1, i1, t1, "a"), mk(s2, l2, i2, t2, "b")
    want = i1 != i2 and s1 == s2
    for p, q in ((A, B), (B, A)):
        r = p.check_compatibility(q)
        require(r.is_compatible == want, "%r: %r" % (case, r))
        if want:
            warn = t1 != t2 and {t1, t2} != {0, 1}
            require(len(r.warnings) == warn, "warnings %r" % r.warnings)
            d = s1[0] - 1.0825 * s1[1]
            vol = math.pi / 4 * (s1[0] ** 2 - d ** 2) * min(l1, l2)
            require(abs(r.overlap_volume - vol) < 1e-9 * (1 + vol), "volume %r for %r" % (r.overlap_volume, vol))
    return Out("threads %s" % want)


COARSE = {"M1.6": .35, "M2": .4, "M2.5": .45, "M3": .5, "M3.5": .6, "M4": .7, "M5": .8, "M6": 1, "M8": 1.25, "M10": 1.5, "M12": 1.75, "M14": 2, "M16": 2, "M20": 2.5, "M24": 3, "M30": 3.5}


def judge_size(case):
    size, lower, fine, length, internal = case
    from yapcad.collision.thread_interface import ThreadInterface, ThreadType
    text = size + ("x%g" % fine if fine else "")
    t = ThreadInterface.from_metric_size(text.lower() if lower else text, engagement_length=length, is_internal=bool(internal), part_name="P", center=(1, 2, 3))
    major = float(size[1:])
    require(t.major_diameter == major and t.pitch == (fine or COARSE[size]), "%s is %r x %r" % (text, t.major_diameter, t.pitch))
    require(t.thread_type == (ThreadType.ISO_METRIC_FINE if fine else ThreadType.ISO_METRIC), "%s is %s" % (text, t.thread_type))
    require(t.engagement_length == (length or 1.5 * major) and t.is_internal == bool(internal) and t.part_name == "P" and t.center == (1, 2, 3), "%r" % t)
    require(abs(t.minor_diameter - (major - 1.0825 * t.pitch)) < 1e-9 and t.minor_diameter < t.pitch_diameter < major, "diameters of %s" % text)
    json.dumps(t.to_dict())
    return Out("size")


def judge_made(case):
    """planetary gears and bolt patterns mesh as they are made"""
    kind, a, b, n = case
    from yapcad.collision.registry import InterfaceRegistry
    R = InterfaceRegistry()
    if kind == "planet":
        from yapcad.collision.gear_interface import create_planetary_gearbox_interfaces
        L = create_planetary_gearbox_interfaces("X", 1.5, a, b, a + 2 * b, 8, num_planets=n, mesh_plane_z=4)
        require(len(L) == n + 2 and len({x.name for x in L}) == n + 2 and len({x.part_name for x in L}) == n + 2, "%d gears" % len(L))
        require([x.teeth for x in L] == [a, a + 2 * b] + [b] * n, "teeth %r" % [x.teeth for x in L])
        R.register_many(L)
        for k, p in enumerate(L[2:]):
            require(p.center[2] == 4 and abs(math.hypot(*p.center[:2]) - L[0].get_center_distance(p)) < 1e-9, "planet at %r" % (p.center,))
            ang = math.degrees(math.atan2(p.center[1], p.center[0])) - 360 * k / n
            require(abs((ang + 180) % 360 - 180) < 1e-6, "planet %d at %r" % (k, p.center))
            for q in L[:2]:
                require(R.check_overlap_compatibility(p.part_name, q.part_name)[0], "%s does not mesh with %s" % (p.part_name, q.part_name))
    else:
        from yapcad.collision.thread_interface import create_bolt_pattern_interfaces
        pos = [(20 * k, a, b) for k in range(n)]
        L = create_bolt_pattern_interfaces("X", "BOLT", "HOLE", "M6", pos)
        require(len(L) == 2 * n and len({x.name for x in L}) == 2 * n, "%d threads" % len(L))
        R.register_many(L)
        require(sorted((x.part_name, x.center, x.is_internal) for x in L) == sorted([("BOLT", p, False) for p in pos] + [("HOLE", p, True) for p in pos]), "threads %r" % L)
        require(R.check_overlap_compatibility("BOLT", "HOLE")[0] == (n > 0), "bolts and holes")
    return Out("made")


# ---------------------------------------------------------------- the detector
BOX = {"A": ((-1, -1, -1), (1, 1, 1)), "B": ((0, 0, 0), (4, 2, 1)), "C": ((-3, 1, 2), (-2, 5, 3))}
ROT = {"i": ((1, 0, 0), (0, 1, 0), (0, 0, 1)), "z": ((0, -1, 0), (1, 0, 0), (0, 0, 1)), "x": ((1, 0, 0), (0, 0, -1), (0, 1, 0)), "y2": ((-1, 0, 0), (0, 1, 0), (0, 0, -1)), "p": ((0, 0, 1), (1, 0, 0), (0, 1, 0))}


def place(box, pose):
    R, t = ROT[pose[0]], pose[1]
    c = [[sum(R[r][k] * p[k] for k in range(3)) + t[r] for r in range(3)] for p in itertools.product(*zip(*box))]
    return [min(x[k] for x in c) for k in range(3)], [max(x[k] for x in c) for k in range(3)]


def meet(a, b):
    return all(a[0][k] <= b[1][k] and b[0][k] <= a[1][k] for k in range(3))


class Tf:
    def __init__(self, m):
        self.matrix = m


def matrix(pose, form):
    import numpy as np
    m = [list(ROT[pose[0]][r]) + [pose[1][r]] for r in range(3)] + [[0, 0, 0, 1]]
    return {"list": m, "np": np.array(m, dtype=float), "flat": [x for r in m for x in r], "obj": Tf(m)}[form]


def box_mesh(name):
    import trimesh
    lo, hi = BOX[name]
    m = trimesh.creation.box([b - a for a, b in zip(lo, hi)])
    m.apply_translation([(a + b) / 2 for a, b in zip(lo, hi)])
    return m


class Provider:
    def __init__(self, form, folder=None):
        self.form, self.folder, self.asked = form, folder, []

    def get_geometry(self, name):
        import trimesh
        self.asked.append(name)
        if name not in BOX:
            return None if name == "none" else 3
        m = box_mesh(name)
        if self.form == "mesh":
            return m
        if self.form == "scene":
            s = trimesh.Scene()
            s.add_geometry(m)
            return s
        p = os.path.join(self.folder, name + ".stl")
        if not os.path.exists(p):
            m.export(p)
        return p


def detector(form="mesh", folder=None, registry=None, **kw):
    from yapcad.collision.detector import CollisionDetector
    return CollisionDetector(Provider(form, folder), registry, **kw)


def judge_boxes(case):
    """a history of checks of placed boxes"""
    form, tf, steps = case
    from yapcad.collision.result import CollisionMethod as M
    with tempfile.TemporaryDirectory(prefix="p23") as t:
        d = detector(form, t)
        for a, pa, b, pb in steps:
            r = d.check_collision(a, matrix(pa, tf), b, matrix(pb, tf), method=M.AABB)
            want = meet(place(BOX[a], pa), place(BOX[b], pb))
            require(not r.error_message and bool(r.collides) == want and (r.part_a, r.part_b) == (a, b) and r.method == M.AABB, "%r %r and %r %r: %s, boxes %s" % (a, pa, b, pb, r, "meet" if want else "do not meet"))
            require(r.is_error == r.collides and not r.compatible_interface, "%r" % r)
    return Out("boxes %s" % want, steps=len(steps))


def judge_wrong(case):
    """what cannot be checked is an error"""
    a, b, ta, tb, how = case
    from yapcad.collision.result import CollisionMethod as M
    bad = {"none": None, "shape": [1, 2], "text": "x", "ragged": [[1], [2, 3]], "ok": matrix(("i", (0, 0, 0)), "list")}
    d = detector()
    r = d.check_collision(a, bad[ta], b, bad[tb], method=M[how] if how else None)
    ok = a in BOX and b in BOX and ta in ("none", "ok") and tb in ("none", "ok")
    require(bool(r.error_message) != ok and not (r.error_message and r.collides), "%r: %s" % (case, r))
    require(str(r).startswith("[ERROR]") != ok, "%s" % r)
    s = d.get_collision_summary([r])
    require(s["detection_failures"] == (not ok) and s["total_pairs"] == 1, "summary %r" % s)
    if a in BOX and b in BOX and ok:
        require(r.collides, "boxes without a placement")
    return Out("wrong %s" % (not ok))


def convex(self, pts):
    """whether points are inside of a convex mesh"""
    import numpy as np
    n, o = self.face_normals, self.triangles[:, 0]
    return (np.einsum("ij,kj->ik", np.asarray(pts), n) - np.einsum("kj,kj->k", o, n) < -1e-9).all(axis=1)


def inside(A, B):
    """the fraction of the surface of box A that is strictly within box B"""
    got = total = 0
    for k in range(3):
        i, j = [x for x in range(3) if x != k]
        total += 2 * (A[1][i] - A[0][i]) * (A[1][j] - A[0][j])
        for v in (A[0][k], A[1][k]):
            if B[0][k] + .01 < v < B[1][k] - .01:
                got += max(0, min(A[1][i], B[1][i]) - max(A[0][i], B[0][i])) * max(0, min(A[1][j], B[1][j]) - max(A[0][j], B[0][j]))
    return got / total


def judge_mesh(case):
    """clear cases of the mesh method, which is the one that is preferred here"""
    a, pa, b, pb = case
    import trimesh
    from yapcad.collision.result import CollisionMethod as M
    A, B = place(BOX[a], pa), place(BOX[b], pb)
    w = [min(A[1][k], B[1][k]) - max(A[0][k], B[0][k]) for k in range(3)]
    if -.2 < min(w) < .3 or min(w) > 0 and max(inside(A, B), inside(B, A)) < .03:
        return None
    old = trimesh.Trimesh.contains
    trimesh.Trimesh.contains = convex
    try:
        d = detector()
        if d.preferred_method is not M.MESH:
            return None
        r = d.check_collision(a, matrix(pa, "list"), b, matrix(pb, "list"))
        require(not r.error_message and r.method == M.MESH and bool(r.collides) == (min(w) > 0), "%r: %s, overlap %r" % (case, r, w))
        for p in r.contact_points:
            require(all(max(A[0][k], B[0][k]) - 1e-6 <= p[k] <= min(A[1][k], B[1][k]) + 1e-6 for k in range(3)), "a contact at %r" % (p,))
    finally:
        trimesh.Trimesh.contains = old
    return Out("mesh %s" % (min(w) > 0))


def judge_assembly(case):
    """pairs, those to skip, and interfaces that come and go"""
    parts, skip, ops, bare = case if len(case) == 4 else case + (0,)
    from yapcad.collision.registry import InterfaceRegistry
    from yapcad.collision.result import CollisionMethod as M
    pose = {"A": ("i", (0, 0, 0)), "B": ("i", (0, 0, 0)), "C": ("i", (3, -1, -2))}
    R, reg = InterfaceRegistry(), {}
    d = detector(registry=R)
    real, asked = d.check_collision, []

    def check(a, ta, b, tb, method=None):
        asked.append((a, b))
        return real(a, ta, b, tb, method=M.AABB)
    d.check_collision = check
    for op, arg in (("look", None),) + ops:
        if op == "add":
            R.register(pool(arg))
            reg[POOL[arg][0]] = arg
        elif op == "del":
            R.unregister(arg)
            reg.pop(arg, None)
        elif op == "new":
            R, reg = InterfaceRegistry(), {}
            d.set_interface_registry(R)
        elif op == "cache":
            d.clear_cache()
        del asked[:]
        # parts without transform are at the origin
        tfs = {p: None if bare and pose[p] == ("i", (0, 0, 0)) else matrix(pose[p], "list") for p in parts}
        res = d.check_assembly(tfs, [tuple(s) for s in skip] or None)
        want = [(a, b) for i, a in enumerate(parts) for b in parts[i + 1:] if (a, b) not in skip and (b, a) not in skip]
        require([(r.part_a, r.part_b) for r in res] == want and asked == want, "pairs %r for %r" % ([(r.part_a, r.part_b) for r in res], want))
        errs, ok = [], []
        for r in res:
            hit = meet(place(BOX[r.part_a], pose[r.part_a]), place(BOX[r.part_b], pose[r.part_b]))
            fine, _ = excused(reg, r.part_a, r.part_b)
            require(bool(r.collides) == hit, "%s, the boxes %s" % (r, "meet" if hit else "do not meet"))
            require(r.compatible_interface == (hit and fine) and r.is_error == (hit and not fine) and r.is_interface_overlap == (hit and fine) and bool(r.interface_names) == (hit and fine), "%s with the interfaces %r" % (r, reg))
            (ok if fine else errs).append((r.part_a, r.part_b)) if hit else None
        s = d.get_collision_summary(res)
        require(s["total_pairs"] == len(want) and s["collisions_detected"] == len(errs) + len(ok) and s["actual_errors"] == len(errs) and s["expected_interfaces"] == len(ok)
                and s["detection_failures"] == 0 and s["error_pairs"] == errs and s["interface_pairs"] == ok, "summary %r" % s)
        if not any(o == "cache" for o, _ in ops):
            require(len(d.geometry_provider.asked) == len(set(d.geometry_provider.asked)), "geometry is asked for twice")
    return Out("assembly", steps=len(ops))


def judge_result(case):
    a, b, hit, method, vol, depth, pts, ok, names, err, meta = case
    from yapcad.collision.result import CollisionMethod, CollisionResult
    r = CollisionResult(a, b, bool(hit), CollisionMethod[method], vol, depth, list(pts), bool(ok), list(names), err, dict(meta))
    d = r.to_dict()
    q = CollisionResult.from_dict(json.loads(json.dumps(d)))
    require(q == r, "%r read back as %r" % (r, q))
    require(r.is_error == (bool(hit) and not ok) and r.is_interface_overlap == (bool(hit) and bool(ok)), "flags of %r" % r)
    require(r.pair_key == CollisionResult(b, a, False).pair_key == tuple(sorted((a, b))), "key %r" % (r.pair_key,))
    want = "[ERROR]" if err else "[OK]" if not hit else "[INTERFACE]" if ok else "[COLLISION]"
    require(str(r).startswith(want) and a in str(r) and b in str(r), "%s" % r)
    return Out("result")


def run(ctx):
    add = [("add", i) for i in range(len(POOL))]
    ops = add + [("del", "g1"), ("del", "t1"), ("del", "g2"), ("clear", None), ("many", (0, 1, 3)), ("many", (4, 7, 5))]
    top = ctx.pick(3, 4)
    hist = [h for n in range(1, top + 1) for h in itertools.product(ops, repeat=n)]
    hist += [tuple(("add", i) for i in p) for p in itertools.permutations(range(len(POOL)), 4)] if not ctx.thorough else []
    d = (0, 1.9, 2.05, 2.2, 7, -5)
    meets_ = [(r1, h1, r2, h2, c, ax, s1, s2, tol) for r1 in (1, 3) for h1 in (2, 10) for r2 in (1.,) for h2 in (2, 6) for c in itertools.product((0, 1.95, 2.05, 3.9, 4.2, -5), (0, 1.95, 2.05, 4.05, 6, -8.2))
              for ax in ((0, 0, 1), (1, 0, 0), (1, 2, 2), (0, 3, -4)) for s1 in (1, -2) for s2 in (1, -1, .1) for tol in (0, .1, 1)]
    g = list(itertools.product((1., 1.5), (12, 30), (20., 20.4, 25.), (.5, 10.), (0., 15., -15.), (0., .2)))
    gears = [(a, b) for a in g[::ctx.pick(7, 2)] for b in g]
    t = list(itertools.product(((3., .5), (6., 1.), (6., .75), (8., .75)), (4, 9.), (0, 1), range(6)))
    threads = [(a, b) for a in t for b in t]
    sizes = list(itertools.product(COARSE, (0, 1), (0, .25, .75), (None, 4.), (0, 1)))
    made = [("planet", a, b, n) for a in (9, 12, 20) for b in (9, 15) for n in range(1, 7)] + [("bolt", a, b, n) for a in (0, 3) for b in (0, -1) for n in range(0, 5)]
    pos = [("i", (0, 0, 0)), ("i", (2, 0, 0)), ("i", (2.5, 0, 0)), ("z", (0, 0, 0)), ("x", (1, -1, 3)), ("y2", (-4, 0, 0)), ("p", (0, 5, 0)), ("i", (-4, 0, -2)), ("z", (0, 0, 2.001)), ("i", (0, 0, -1.))]
    one = [((a, p, b, q),) for a in "ABC" for b in "ABC" for p in pos for q in pos]
    boxes = [(f, m, s) for s in one for f, m in (("mesh", "list"), ("mesh", "np"), ("mesh", "obj"), ("mesh", "flat"))] + [(f, "list", s) for s in one[::3] for f in ("file", "scene")]
    boxes += [("mesh", "list", (s[0], u[0], s[0])) for s in one[::11] for u in one[::7]]
    wrong = list(itertools.product(("A", "B", "none", "odd"), ("A", "none", "odd"), ("none", "shape", "text", "ragged", "ok"), ("none", "shape", "ok"), ("AABB",)))
    meshes = [s[0] for s in one]
    aops = [("add", i) for i in range(9) if POOL[i][:2] != ("g1", "C")] + [("del", "g1"), ("del", "g2"), ("new", None), ("cache", None)]
    seqs = [s for n in range(0, ctx.pick(4, 5)) for s in itertools.product(aops, repeat=n) if all(s[:i].count(x) == 0 for i, x in enumerate(s) if x[0] == "add")]
    asm = [(p, sk, s) for s in seqs if len(s) < 2 for p in itertools.chain(*(itertools.permutations("ABC", n) for n in range(4))) for sk in ((), (("A", "B"),), (("B", "A"),), (("A", "C"), ("C", "B")), (("A", "A"),))]
    asm += [c + (1,) for c in asm]
    asm += [(("A", "B", "C"), (), s) for s in seqs if len(s) > 1]
    res = list(itertools.product(("a", "Z"), ("b",), (0, 1), ("BREP", "MESH", "AABB", "FCL", "UNKNOWN"), (None, 0., 2.5), (0., 1.), ((), ((1., 2., 3.),)), (0, 1), ((), ("x", "y")), ("", "bad"), ((), (("k", 1),))))
    ctx.explore(judge, [("registry", hist, 60), ("meet", meets_, 500), ("gears", gears, 200), ("threads", threads, 200), ("size", sizes, 50), ("made", made, 10),
                        ("boxes", boxes, 100), ("wrong", wrong, 30), ("mesh", meshes, 60), ("assembly", asm, 60), ("result", res, 200)])
