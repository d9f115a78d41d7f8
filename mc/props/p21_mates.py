"""P21: a solved mate really puts the child's datum where the mate says."""
import itertools
import math

from mc import mat
from mc.core import Out, h, require

META = {
    "id": "P21",
    "title": "Solved mates place the child's datum in the stated relation to the parent's",
    "statement": "Every transform computed for a mate (coincident, aligned, concentric, parallel, perpendicular, distance, angle, revolute, rigid; by the face-mate functions, FaceToFaceMate, the constraint solver or a mate chain) is a rigid motion after which the child's datum stands in the stated relation to the parent's, at the requested offset, rotation and parent placement, and turns no further than needed. Validation and coincidence measurement report the true distances and angles, a datum moved by a transform or turned into a frame matrix moves as a rigid feature, and mates keep limits, coupling and data through their own dictionaries. Answers depend only on the current inputs: no history of solving, validating, caching, re-registering and invalidating changes them.",
    "over": ["inputs", "histories"],
    "forall": "every pair of datum kinds, 26 axis directions and nearly (anti)parallel ones, offsets, rotations, parent placements; every history of solver calls up to the stated depth",
    "why": "The suite does not exercise these modules; wrong placements appear only for nearly parallel or opposed directions, off-origin datums, second parents, or particular orders of solving and re-registering.",
    "files": ["src/yapcad/assembly/face_mate.py", "src/yapcad/assembly/solver.py", "src/yapcad/assembly/mate.py", "src/yapcad/assembly/datum.py", "src/yapcad/assembly/datum_registry.py"],
    "mech": [["alignment rotation", "assembly/face_mate.py:_rotation_between_vectors"], ["solver dispatch and cache", "assembly/solver.py:solve_mate"], ["coincidence measurement", "assembly/mate.py:evaluate_coincident"]],
    "technique": "explicit enumeration of datum configurations and of solver operation histories on the real code, judged by independent vector geometry",
    "note": "all 5x5 datum kinds x 38 directions x 4 origins, histories to depth 4 (quick) / 5 (thorough)",
}

TOL = 1e-6
GRID = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
NEAR = [(1e-2, 0, 1), (0, 1e-3, -1), (1e-4, 1e-4, 1), (1, 1e-3, 0), (-1, 0, 5e-3), (1e-6, 0, 1), (0, 1e-7, -1), (1, 1e-9, 0), (0.013, 0.004, 1), (3, 4, 12), (0, -7, 24), (1e-2, 1, 0)]
DIRS = GRID + NEAR
ORIGINS = [(0, 0, 0), (1, 2, 3), (-5, 0, 7.5), (120, -40, 0.25)]
KINDS = ["point", "axis", "plane", "circle", "frame"]
PARENTS = [None, ("t", (10, -20, 30), (0, 0, 1), 0), ("t", (1, 2, 3), (1, 1, 0), 120), ("t", (0, 0, -4), (3, 0, 4), -77)]


def placed(i):
    if PARENTS[i] is None:
        return None
    _, t, ax, deg = PARENTS[i]
    return mat.mul(mat.trans(*t), mat.rot(ax, deg))


def unit(v):
    n = math.sqrt(sum(c * c for c in v))
    return [c / n for c in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def norm(a):
    return math.sqrt(dot(a, a))


def angle(a, b):
    return math.degrees(math.atan2(norm(cross(a, b)), dot(a, b)))


def far(a, b):
    return norm(sub(a, b))


def frame_axes(d):
    """A right-angled pair of axes whose cross product is along d."""
    d = unit(d)
    r = (1, 0, 0) if abs(d[0]) < 0.9 else (0, 1, 0)
    x = unit(cross(d, r))
    return x, cross(d, x)


def datum(kind, o, d, name="d", radius=4.0, scale=1.0):
    from yapcad.assembly.datum import Datum, DatumType

    o, d = list(o), [c * scale for c in d]
    k = DatumType(kind)
    if kind == "point":
        return Datum(name, k, origin=o + [1])
    if kind == "axis":
        return Datum(name, k, origin=o + [1], direction=d + [0])
    if kind == "plane":
        return Datum(name, k, origin=o + [1], normal=d + [0])
    if kind == "circle":
        return Datum(name, k, origin=o + [1], normal=d + [0], radius=radius)
    x, y = frame_axes(d)
    return Datum(name, k, origin=o + [1], x_axis=x + [0], y_axis=y + [0])


def has_dir(kind):
    return kind in ("axis", "plane", "circle")


def direction(kind, d):
    return unit(d) if has_dir(kind) else None


def rigid(T, what):
    T = [[float(c) for c in row] for row in T]
    require(len(T) == 4 and all(len(r) == 4 for r in T), "%s: not a 4x4 matrix" % what)
    require(max(abs(a - b) for a, b in zip(T[3], (0, 0, 0, 1))) < 1e-12, "%s: bottom row %r" % (what, T[3]))
    c = [[T[i][j] for i in range(3)] for j in range(3)]
    for i in range(3):
        for j in range(3):
            require(abs(dot(c[i], c[j]) - (i == j)) < 1e-9, "%s: columns %d,%d not orthonormal" % (what, i, j))
    require(far(cross(c[0], c[1]), c[2]) < 1e-9, "%s: mirrors" % what)
    return T


def turn(T):
    """Rotation angle of a rigid motion, degrees."""
    s = norm([T[2][1] - T[1][2], T[0][2] - T[2][0], T[1][0] - T[0][1]]) / 2
    return math.degrees(math.atan2(s, (T[0][0] + T[1][1] + T[2][2] - 1) / 2))


def along(T, p, d):
    """d applied at p: the transformed direction."""
    return mat.app(T, d, 0.0)


def spec(c):
    kind, oi, di = c[:3]
    return kind, ORIGINS[oi], DIRS[di]


def judge(kind, case):
    return globals()["judge_" + kind](case)


def relation(T, what, P, C, rel, offset=0.0, minimal=True):
    """Independent judgement of rel for child datum C placed by T against P."""
    (pk, po, pd), (ck, co, cd) = P, C
    T = rigid(T, what)
    n = direction(pk, pd) or [0.0, 0.0, 1.0]
    m = direction(ck, cd) or [0.0, 0.0, 1.0]
    got_o = mat.app(T, co)
    got_m = mat.app(T, m, 0.0)
    if rel in ("coincident", "aligned", "concentric", "distance"):
        d = sub(got_o, po)
        require(abs(dot(d, n) - offset) < TOL, "%s: child datum %.9g along the parent's axis, expected %.9g" % (what, dot(d, n), offset))
        if rel != "distance":
            off = norm(sub(d, [offset * c for c in n]))
            require(off < TOL, "%s: child datum is off the parent's by %.3g" % (what, off))
    if rel in ("coincident", "aligned", "concentric", "parallel"):
        want = [-c for c in n] if rel == "coincident" else n
        require(far(got_m, want) < TOL, "%s: child direction is %.6g deg off" % (what, angle(got_m, want)))
        if minimal:
            require(abs(turn(T) - angle(m, want)) < 1e-4, "%s: turns by %.6g deg where %.6g suffice" % (what, turn(T), angle(m, want)))
    if rel == "perpendicular":
        require(abs(dot(got_m, n)) < TOL, "%s: directions meet at %.6g deg" % (what, angle(got_m, n)))
    return T


def judge_face(case):
    """face_mate functions on one pair of datums."""
    from yapcad.assembly import face_mate as fm
    from yapcad.assembly.mate import evaluate_coincident

    pc, cc, off, rot, scale = case
    P, C = spec(pc), spec(cc)
    pd, cd = datum(*P, name="p", scale=scale), datum(*C, name="c", scale=1 / scale)
    for flip in (True, False):
        rel = "coincident" if flip else "aligned"
        T = fm.compute_flush_transform(pd, cd, offset=off, rotation_deg=rot, flip_normal=flip)
        T = relation(T, rel, P, C, rel, off, minimal=not rot)
        if rot:
            T0 = fm.compute_flush_transform(pd, cd, offset=off, flip_normal=flip)
            n = direction(P[0], P[2]) or (0, 0, 1)
            R = mat.mul(mat.mul(mat.trans(*P[1]), mat.rot(n, rot)), mat.trans(*[-c for c in P[1]]))
            require(mat.diff(T, mat.mul(R, T0)) < TOL, "rotation about the normal by %g differs" % rot)
    Tc = fm.compute_concentric_transform(pd, cd, offset=off)
    relation(Tc, "concentric", P, C, "concentric", off)
    relation(fm.compute_parallel_transform(pd, cd, offset=off), "parallel", P, C, "parallel")
    # the library's own measurement agrees
    placed_c = cd.transform([[float(x) for x in r] for r in T])
    r = evaluate_coincident(pd, placed_c)
    slack = P[0] == C[0] == "axis" or False
    if slack or off == 0:
        require(r.satisfied, "evaluate_coincident denies a solved mate: %s" % r.error_message)
    elif P[0] == "plane" and C[0] in ("plane", "point"):
        require(abs(r.error_distance - abs(off)) < TOL and r.satisfied == (abs(off) <= 0.1), "evaluate_coincident measures %r at offset %g" % (r.error_distance, off))
    return Out("%s-%s" % (P[0], C[0]))


REL = {"coincident": "coincident", "aligned": "aligned", "concentric": "concentric", "parallel": "parallel"}


def fresh_registry(sources):
    from yapcad.assembly.datum_registry import DatumRegistry

    DatumRegistry.clear()
    for s, datums in sources.items():
        DatumRegistry.register_source(s, {d.name: d for d in datums})
    return DatumRegistry


def judge_ftf(case):
    """FaceToFaceMate: placement, parents, self-validation."""
    from yapcad.assembly.face_mate import FaceToFaceMate
    from yapcad.assembly.mate import MateType

    con, pc, cc, off, rot, parents = case
    P, C = spec(pc), spec(cc)
    fresh_registry({"A": [datum(*P, name="p")], "B": [datum(*C, name="c")]})
    m = FaceToFaceMate("m", "A", "p", "B", "c", constraint=MateType(con), offset_distance=off, rotation_about_normal=rot)
    local = None
    for i in parents:
        W = placed(i)
        import numpy as np

        got = m.compute_transform(None if W is None else np.array(W))
        if local is None:
            ref = FaceToFaceMate("m", "A", "p", "B", "c", constraint=MateType(con), offset_distance=off, rotation_about_normal=rot)
            local = relation(ref.compute_transform(), con, P, C, con, off, minimal=not rot)
        want = local if W is None else mat.mul(W, local)
        require(mat.diff(got, want) < TOL, "placement under parent %d differs from parent @ relative transform by %.3g" % (i, mat.diff(got, want)))
        v = m.validate()
        require(v.satisfied, "validate() denies the solved mate: %s" % v)
    return Out(con)


def judge_solver(case):
    """MateConstraintSolver for every mate type, mate axis and parent."""
    import numpy as np
    from yapcad.assembly.mate import Mate, MateType
    from yapcad.assembly.solver import MATE_AXIS_ROTATIONS, MateConstraintSolver, apply_mate_axis_rotation

    typ, pc, cc, val, pi, ax = case
    P, C = spec(pc), spec(cc)
    fresh_registry({"A": [datum(*P, name="p")], "B": [datum(*C, name="c")]})
    mk = dict(offset=val) if typ == "distance" else dict(angle=math.radians(val)) if typ == "angle" else {}
    m = Mate("m", MateType(typ), "A", "p", "B", "c", **mk)
    W = placed(pi)
    s = MateConstraintSolver()
    r = s.solve_mate(m, None if W is None else np.array(W), ax)
    if typ in ("tangent", "prismatic", "gear", "slot"):
        require(not r.success and r.transform is None and r.error_message, "unsupported mate type %s was solved" % typ)
        return Out("unsupported")
    require(r.success, "not solved: %s" % r.error_message)
    T = rigid(r.transform, typ)
    if W is not None:
        T = mat.mul(mat.inv_rigid(W), T)
    M = [[float(c) for c in row] for row in MATE_AXIS_ROTATIONS[ax]]
    M4 = [row + [0.0] for row in M] + [[0.0, 0.0, 0.0, 1.0]]
    rigid(M4, "mate axis %s" % ax)
    vec = {"X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1), "-X": (-1, 0, 0), "-Y": (0, -1, 0), "-Z": (0, 0, -1)}[ax]
    require(far(mat.app(M4, vec, 0.0), (0, 0, 1)) < 1e-12, "mate axis %s is not remapped to Z" % ax)
    T = mat.mul(T, mat.inv_rigid(M4))
    require(mat.diff(apply_mate_axis_rotation(np.array(T), ax), mat.mul(T, M4)) < TOL, "apply_mate_axis_rotation differs")
    require(s.validate_transform(np.array(T)).valid, "validate_transform denies a rigid transform")
    rel = {"rigid": "coincident", "revolute": "concentric"}.get(typ, typ)
    if typ == "angle":
        n = direction(P[0], P[2]) or (0, 0, 1)
        require(mat.diff([[c if i < 3 else 0.0 for i, c in enumerate(row)] for row in T], [[c if i < 3 else 0.0 for i, c in enumerate(row)] for row in mat.rot(n, val)]) < TOL, "not the stated rotation about the parent's axis")
    else:
        relation(T, typ, P, C, rel, val if typ == "distance" else 0.0, minimal=typ in ("coincident", "rigid", "concentric", "revolute", "parallel"))
    return Out(typ)


def judge_notrigid(case):
    """validate_transform accepts exactly the rigid motions."""
    import numpy as np
    from yapcad.assembly.solver import MateConstraintSolver

    what, i, j, eps = case
    T = placed(2)
    T = [list(r) for r in T]
    if what == "entry":
        T[i][j] += eps
    elif what == "scale":
        for a in range(3):
            T[a][j] *= 1 + eps
    elif what == "mirror":
        for a in range(3):
            T[a][j] *= -1
    r = MateConstraintSolver().validate_transform(np.array(T))
    moved = what == "entry" and j == 3 and i < 3
    require(r.valid == moved, "validate_transform says valid=%s for %s at (%d,%d)" % (r.valid, what, i, j))
    require(r.valid == (not r.error_messages), "messages do not match the verdict")
    return Out(what)


def ref_coincident(P, C, ra, rb):
    (ka, oa, da), (kb, ob, db) = P, C
    d = sub(ob, oa)
    if ka == kb and ka in ("circle", "plane", "axis"):
        n, m = unit(da), unit(db)
        ang = angle(n, m)
        ang = min(ang, 180 - ang)
        if ka == "circle":
            dist = norm(d)
        elif ka == "plane":
            dist = abs(dot(n, d))
        else:
            dist = norm(cross(n, d))
        return dist, ang
    if (ka, kb) == ("point", "plane"):
        return abs(dot(unit(db), d)), 0.0
    if (ka, kb) == ("plane", "point"):
        return abs(dot(unit(da), d)), 0.0
    return norm(d), 0.0


def judge_measure(case):
    """evaluate_coincident against the textbook distances."""
    from yapcad.assembly.mate import check_bolt_circle_alignment, evaluate_coincident

    pc, cc, tmm, tdeg = case
    P, C = spec(pc), spec(cc)
    a, b = datum(*P, name="a", radius=4.0), datum(*C, name="b", radius=4.0 if pc[1] != cc[1] or pc[2] == cc[2] else 4.25)
    r = evaluate_coincident(a, b, tolerance_mm=tmm, tolerance_deg=tdeg)
    dist, ang = ref_coincident(P, C, 4.0, 4.0)
    require(abs(r.error_distance - dist) < TOL, "distance %.9g, expected %.9g" % (r.error_distance, dist))
    require(abs(r.error_angle - ang) < 1e-5, "angle %.9g, expected %.9g" % (r.error_angle, ang))
    if min(abs(dist - tmm), abs(ang - tdeg)) > 1e-5:
        require(r.satisfied == (dist <= tmm and ang <= tdeg), "satisfied=%s at distance %g, angle %g" % (r.satisfied, dist, ang))
    back = evaluate_coincident(b, a, tolerance_mm=tmm, tolerance_deg=tdeg)
    if P[0] != C[0] or P[0] in ("point", "circle", "frame"):
        require(abs(back.error_distance - r.error_distance) < TOL and back.satisfied == r.satisfied, "not symmetric")
    if P[0] == C[0] == "circle":
        for n, offdeg in ((4, 0.0), (4, 2.0), (6, -60.0), (3, 30.0)):
            q = check_bolt_circle_alignment(a, b, n, tmm, offdeg)
            if not (dist <= tmm and ang <= 1.0):
                require(not q.satisfied, "bolt circles that do not coincide align")
            else:
                rb = b.radius
                if abs(a.radius - rb) > tmm:
                    require(not q.satisfied, "bolt circles of different radius align")
                elif dist < 1e-9:
                    err = math.sqrt(max(0.0, a.radius**2 + rb**2 - 2 * a.radius * rb * math.cos(math.radians(offdeg))))
                    if abs(err - tmm) > 0.3:
                        require(q.satisfied == (err <= tmm), "hole error %.4g, satisfied=%s" % (err, q.satisfied))
    else:
        bad = check_bolt_circle_alignment(a, b, 4, tmm)
        require(not bad.satisfied, "a %s passes as a bolt circle" % (P[0] if P[0] != "circle" else C[0]))
    return Out("%s-%s%s" % (P[0], C[0], "+" if r.satisfied else "-"))


def judge_datum(case):
    """Datums move rigidly; their frame matrices are rigid and point along them."""
    from yapcad.assembly.datum_registry import datum_to_transform_matrix

    c, i, j, scale = case
    K = spec(c)
    d = datum(*K, name="q", scale=scale)
    d.tags.append("t") if isinstance(d.tags, list) else None
    before = repr(d)
    A, B = placed(i), placed(j)
    for m in (A, mat.mul(B, A)):
        e = d.transform(m)
        require(repr(d) == before, "transform changed its datum")
        require((e.name, e.datum_type, e.radius, list(e.tags)) == (d.name, d.datum_type, d.radius, list(d.tags)), "transform lost fields")
        require(far(e.origin[:3], mat.app(m, K[1])) < TOL, "origin moved to %r" % (e.origin,))
        for f in ("direction", "normal", "x_axis", "y_axis"):
            v = getattr(d, f)
            w = getattr(e, f)
            require((v is None) == (w is None), "%s appeared or vanished" % f)
            if v is not None:
                require(far(w[:3], mat.app(m, unit(v[:3]), 0.0)) < TOL and w[3] == 0, "%s moved to %r" % (f, w))
    two = d.transform(A).transform(B)
    one = d.transform(mat.mul(B, A))
    for f in ("origin", "direction", "normal", "x_axis", "y_axis"):
        a, b = getattr(one, f), getattr(two, f)
        require(a is None and b is None or far(a[:3], b[:3]) < TOL, "moving twice differs from moving by the product (%s)" % f)
    M = rigid(datum_to_transform_matrix(d), "frame of %s" % K[0])
    require(far([M[r][3] for r in range(3)], K[1]) < TOL, "frame matrix is not at the datum")
    z = [M[r][2] for r in range(3)]
    want = [0, 0, 1] if K[0] == "point" else unit(K[2])
    require(far(z, want) < TOL, "frame matrix Z is %r" % (z,))
    if K[0] == "frame":
        require(far([M[r][0] for r in range(3)], d.x_axis[:3]) < TOL, "frame matrix X is not the frame's")
    return Out(K[0])


def judge_skewframe(case):
    from yapcad.assembly.datum import Datum, DatumType
    from yapcad.assembly.datum_registry import datum_to_transform_matrix

    xi, yi, sx, sy = case
    x, y = [sx * c for c in DIRS[xi]], [sy * c for c in DIRS[yi]]
    d = Datum("f", DatumType.FRAME, origin=[1, 2, 3, 1], x_axis=x + [0], y_axis=y + [0])
    M = rigid(datum_to_transform_matrix(d), "frame with axes %r, %r" % (x, y))
    require(far([M[r][0] for r in range(3)], unit(x)) < TOL, "X is not along x_axis")
    require(dot([M[r][1] for r in range(3)], y) > 0, "Y is not on the side of y_axis")
    return Out("ok")


VALUES = [(0, 3), (1, 17), (2, 30)]


def judge_cache(ops):
    """Solver histories: every answer is the one a new solver would give."""
    import numpy as np
    from yapcad.assembly.mate import Mate, MateType
    from yapcad.assembly.solver import MateConstraintSolver

    D = [datum("plane", (1, 2, 3), (0, 0, 1), "p"), datum("plane", (4, 0, 0), (1, 0, 0), "p")]
    reg = fresh_registry({"A": [D[0]], "B": [datum("plane", (0, 0, 5), (0, 1, 0), "c")], "BX": [datum("axis", (7, 0, 0), (1, 1, 0), "c")]})
    mates = {
        "m": Mate("m", MateType.COINCIDENT, "A", "p", "B", "c"),
        "m2": Mate("m2", MateType.DISTANCE, "A", "p", "BX", "c", offset=3.0),
    }
    s = MateConstraintSolver()
    states, cur, last = [], 0, None
    for op in ops:
        if op[0] == "solve":
            W = placed(op[2])
            W = None if W is None else np.array(W)
            ax = op[3] if len(op) > 3 else "Z"
            got = s.solve_mate(mates[op[1]], W, ax)
            want = MateConstraintSolver(use_cache=False).solve_mate(mates[op[1]], W, ax)
            require(got.success and want.success, "not solved: %s" % got.error_message)
            require(mat.diff(got.transform, want.transform) < 1e-12, "solve_mate(%s) answers from history: off by %.3g" % (op[1:], mat.diff(got.transform, want.transform)))
        elif op[0] == "all":
            W = {"A": np.array(placed(op[1]))} if op[1] else {}
            got = s.solve_all(list(mates.values()), W)
            for k, m in mates.items():
                want = MateConstraintSolver(use_cache=False).solve_mate(m, W.get("A"))
                require(mat.diff(got[k].transform, want.transform) < 1e-12, "solve_all(%s) answers from history" % k)
        elif op[0] == "register":
            cur = op[1]
            reg.register_source("A", {"p": D[cur]})
        elif op[0] == "offset":
            mates["m2"].offset = op[1]
        elif op[0] == "drop":
            s.invalidate_cache(op[1])
        elif op[0] == "type":
            mates["m"].mate_type = MateType(op[1])
        states.append(h((cur, mates["m"].mate_type.value, mates["m2"].offset, sorted(map(repr, s._cache)))))
    return Out("-".join(sorted({o[0][0] for o in ops})), states, len(ops))


def judge_facecache(ops):
    """FaceToFaceMate histories: stale only until invalidated, never mixed up."""
    import numpy as np
    from yapcad.assembly.face_mate import FaceToFaceMate

    D = [datum("plane", (1, 2, 3), (0, 0, 1), "p"), datum("plane", (4, 0, 0), (1, 0, 0), "p")]
    C = datum("plane", (0, 0, 5), (0, 1, 0), "c")

    def fresh(i):
        reg.register_source("A", {"p": D[i]})
        return FaceToFaceMate("m", "A", "p", "B", "c", offset_distance=2.0).compute_transform()

    reg = fresh_registry({"A": [D[0]], "B": [C]})
    locs = [fresh(0), fresh(1)]
    reg.register_source("A", {"p": D[0]})
    m = FaceToFaceMate("m", "A", "p", "B", "c", offset_distance=2.0)
    cur, known, states = 0, None, []
    for op in ops:
        if op[0] in ("compute", "scribble"):
            W = placed(op[1])
            if known is None:
                known = cur
            want = locs[known] if W is None else mat.mul(W, locs[known])
            got = m.compute_transform(None if W is None else np.array(W))
            require(mat.diff(got, want) < 1e-9, "compute_transform under parent %d answers from history" % op[1])
            if op[0] == "scribble":
                got[:] = 0.0
        elif op[0] == "validate":
            if known is None:
                known = cur
            require(m.validate().satisfied, "validate() denies the mate")
        elif op[0] == "register":
            cur = op[1]
            reg.register_source("A", {"p": D[cur]})
        elif op[0] == "drop":
            m.invalidate_cache()
            known = None
        states.append(h((cur, known)))
    return Out("ok", states, len(ops))


def judge_chain(case):
    """solve_mate_chain: each part is placed on the previous one."""
    import numpy as np
    from yapcad.assembly.mate import Mate, MateType
    from yapcad.assembly.solver import MateConstraintSolver, solve_mate_chain

    types, base, broken = case
    reg = {}
    for i in range(len(types) + 1):
        reg["P%d" % i] = [datum("plane", ORIGINS[i % 4], DIRS[(7 * i) % 26], "out"), datum("axis" if i % 2 else "plane", ORIGINS[(i + 1) % 4], DIRS[(5 * i + 3) % 26], "in")]
    fresh_registry(reg)
    mates = [Mate("m%d" % i, MateType(t), "P%d" % i, "out" if i != broken else "missing", "P%d" % (i + 1), "in", offset=1.5) for i, t in enumerate(types)]
    W = placed(base)
    got = solve_mate_chain(mates, None if W is None else np.array(W))
    cur = W or mat.eye()
    n = len(types) if broken is None else broken
    require(sorted(got) == ["P%d" % (i + 1) for i in range(n)], "placed parts are %r" % sorted(got))
    for i in range(n):
        local = MateConstraintSolver(use_cache=False).solve_mate(mates[i]).transform
        cur = mat.mul(cur, [[float(c) for c in r] for r in local])
        require(mat.diff(got["P%d" % (i + 1)], cur) < TOL, "P%d is not placed on P%d" % (i + 1, i))
    return Out("n%d" % n, (), len(types))


def judge_mate(case):
    """Mate data: dictionaries, limits, coupling."""
    import json
    from yapcad.assembly.mate import Mate, MateDynamics, MateLimits, MateType

    typ, lim, dyn, coup, pos = case
    L = None if lim is None else MateLimits(min_value=lim[0], max_value=lim[1], max_velocity=lim[2], max_effort=lim[3], min_secondary=lim[0], limit_stiffness=5.0)
    D = None if dyn is None else MateDynamics(friction_static=dyn, damping=2 * dyn, rest_position=-dyn)
    ratio, offs, rev, pitch = coup
    m = Mate("m", MateType(typ), "A", "p", "B", "c", offset=1.5, angle=0.5, axis=[1, 0, 0, 0], limits=L, dynamics=D, coupling_ratio=ratio, coupling_offset=offs, coupling_reverse=rev, coupling_pitch=pitch, metadata={"k": [1]})
    back = Mate.from_dict(json.loads(json.dumps(m.to_dict())))
    require(back == m, "dictionary round trip gives %r" % (back,))
    res = m.evaluate(current_position=pos)
    lo, hi = (None, None) if lim is None else lim[:2]
    under = max(0.0, lo - pos) if lo is not None and pos is not None else 0.0
    over = max(0.0, pos - hi) if hi is not None and pos is not None else 0.0
    require(abs(res["error"] - under - over) < 1e-12 and res["satisfied"] == (under + over == 0), "position %r in %r: error %r, satisfied %r" % (pos, lim, res["error"], res["satisfied"]))
    require(len(res["limit_violations"]) == (under > 0) + (over > 0), "violations %r" % res["limit_violations"])
    require(res["dynamics_active"] == (dyn is not None), "dynamics flag")
    for v in (pos, None if pos is None else -pos):
        r = m.evaluate(current_velocity=v, current_effort=v)
        n = 0 if lim is None or v is None else (lim[2] is not None and abs(v) > lim[2]) + (lim[3] is not None and abs(v) > lim[3])
        require(len(r["limit_violations"]) == n, "velocity/effort %r in %r: %r" % (v, lim, r["limit_violations"]))
    if m.is_coupled():
        p = 0.0 if pos is None else pos
        want = p * ratio + offs
        want = -want if rev else want
        if typ == "screw" and pitch is not None:
            want = p / (2 * math.pi) * pitch
        require(abs(m.compute_coupled_motion(p) - want) < 1e-12, "coupled motion %r, expected %r" % (m.compute_coupled_motion(p), want))
    else:
        try:
            m.compute_coupled_motion(1.0)
            require(False, "a mate that is not coupled drives motion")
        except ValueError:
            pass
    table = {"rigid": 0, "revolute": 1, "prismatic": 1, "cylindrical": 2, "spherical": 3, "planar": 3, "pin_slot": 2, "universal": 2, "screw": 1, "tangent": 5, "distance": 5, "angle": 5}
    if typ in table:
        require(m.degrees_of_freedom() == table[typ], "%s leaves %d degrees of freedom" % (typ, m.degrees_of_freedom()))
    return Out(typ)


def dspecs(kinds, origins, dirs):
    for k in kinds:
        for o in origins:
            for d in dirs if has_dir(k) or k == "frame" else dirs[:1]:
                yield [k, o, d]


def run(ctx):
    ctx.assumptions = [
        "point and frame datums have no mating direction of their own (the library mates them along Z)",
        "the placement a mate leaves free (sliding, spin) is only required to be rigid and minimal in rotation",
        "a FaceToFaceMate may keep its cached relative transform until invalidate_cache, as documented",
        "tolerance 1e-6 mm / 1e-6 rad",
    ]
    N = len(DIRS)
    sm = [0, 1, 5, 12, 13, 20, 25] + list(range(26, N))
    pdir = ctx.pick(sm, list(range(N)))
    every = list(range(N))

    def face():
        ks = ["plane", "axis", "circle", "point", "frame"]
        for p in dspecs(["plane"], [1], every):
            for c in dspecs(["plane"], [2], every):
                yield [p, c, 0.0, 0.0, 1.0]
        for a in ks:
            for b in ks:
                for p in dspecs([a], [0, 3], pdir[:10] if ctx.thorough else [4, 12, 26, 33]):
                    for c in dspecs([b], [1], pdir[:12] if ctx.thorough else [0, 12, 25, 27, 34]):
                        for off, rot in ((0.0, 90.0), (2.5, 0.0), (-0.05, -33.0)):
                            yield [p, c, off, rot, 3.0]

    def ftf():
        for con in ("coincident", "aligned", "concentric", "parallel"):
            for a in KINDS:
                for b in KINDS:
                    for p in dspecs([a], [1], [4, 12, 29]):
                        for c in dspecs([b], [3], [4, 13, 22, 27]):
                            for off in (0.0, 3.0):
                                for rot in (0.0, 30.0) if con in ("coincident", "aligned") else (0.0,):
                                    for par in ([0, 1], [2, 3, 0]) if off else ([1, 2], [3, 3, 1]):
                                        yield [con, p, c, off, rot, par]

    types = ["coincident", "rigid", "aligned", "concentric", "revolute", "parallel", "perpendicular", "distance", "angle", "tangent", "prismatic", "gear", "slot"]

    def solver():
        for t in types:
            if t == "aligned":
                continue  # the solver does not offer it
            for p in dspecs(["plane"], [1], every if t != "rigid" else pdir[:6]):
                for c in dspecs(["axis"], [2], pdir if t not in ("coincident", "parallel", "perpendicular") else every):
                    yield [t, p, c, 7.0 if t == "distance" else 40.0, 0, "Z"]
            for a in KINDS:
                for b in KINDS:
                    for p in dspecs([a], [3], [3, 26]):
                        for c in dspecs([b], [1], [8, 32]):
                            for ax in ("X", "Y", "Z", "-X", "-Y", "-Z"):
                                yield [t, p, c, -2.5, 1 + len(ax) % 3, ax]

    def notrigid():
        for i in range(4):
            for j in range(4):
                yield ["entry", i, j, 1e-3]
        for j in range(3):
            yield ["scale", 0, j, 1e-3]
            yield ["mirror", 0, j, 0.0]

    def measure():
        for a in KINDS:
            for b in KINDS:
                for p in dspecs([a], [0, 1], [2, 12, 26, 30, 34]):
                    for c in dspecs([b], [0, 1, 3], [12, 13, 22, 26, 34]):
                        for t in ((0.1, 1.0), (5.0, 60.0), (200.0, 0.01)):
                            yield [p, c, *t]

    def dat():
        for k in KINDS:
            for c in dspecs([k], [0, 1, 3], every):
                for i, j in ((1, 2), (2, 3), (3, 1)):
                    yield [c, i, j, 1.0 if k == "frame" else 2.5]

    def skew():
        for x in range(26):
            for y in range(26):
                if norm(cross(DIRS[x], DIRS[y])) > 1e-9:
                    for s in ((1.0, 1.0), (2.0, 0.5)):
                        yield [x, y, *s]

    sops = [["solve", "m", 0], ["solve", "m", 2], ["solve", "m2", 1], ["solve", "m", 0, "X"], ["all", 3], ["register", 1], ["register", 0], ["offset", 9.0], ["drop", "m"], ["drop", None], ["type", "concentric"]]
    fops = [["compute", 0], ["compute", 1], ["scribble", 0], ["compute", 3], ["validate"], ["register", 1], ["register", 0], ["drop"]]

    def seqs(ops, depth):
        for s in itertools.product(ops, repeat=depth):
            yield [list(o) for o in s]

    def chain():
        ts = ["coincident", "concentric", "parallel", "distance", "perpendicular"]
        for n in range(1, ctx.pick(4, 5)):
            for combo in itertools.product(ts, repeat=n):
                for b in (0, 2):
                    for broken in [None] + list(range(n)):
                        yield [list(combo), b, broken]

    def mates():
        from yapcad.assembly.mate import MateType

        for t in [t.value for t in MateType]:
            for lim in (None, (0.0, 2.0, 1.5, None), (None, 1.0, None, 2.0), (-1.0, None, 3.0, 3.0)):
                for dyn in (None, 0.25):
                    for coup in ((3.0, 0.0, False, None), (-0.5, 1.0, True, 2.0)):
                        for pos in (None, -1.5, -1.0, 0.0, 1.0, 2.0, 2.5):
                            yield [t, lim, dyn, coup, pos]

    ctx.explore(judge, [
        ("face", face()), ("ftf", ftf()), ("solver", solver()), ("notrigid", notrigid()), ("measure", measure()),
        ("datum", dat()), ("skewframe", skew()), ("cache", seqs(sops, ctx.pick(4, 5))), ("facecache", seqs(fops, ctx.pick(4, 6))),
        ("chain", chain()), ("mate", mates()),
    ], batch=200)
