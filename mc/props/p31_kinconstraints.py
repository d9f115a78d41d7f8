"""P31: kinematic constraints pass exactly when the placed frames, axes and boxes meet them."""
import itertools
import math

from mc import mat
from mc.core import Out, h, require
from mc.props.p21_mates import angle, cross, dot, norm, sub, unit

META = {
    "id": "P31",
    "title": "Kinematic constraints pass exactly when the placed frames and boxes meet them",
    "statement": "A constraint over the world transforms of a kinematic chain (coincident, concentric, parallel, perpendicular, tangent, at-distance, minimum distance, Z-stack clearance, no-overlap, bolt pattern, custom) is satisfied exactly when the placed origins, faces, axes or bounding boxes meet it within tolerance, and reports the true error. A frame, face or axis that cannot be found never passes. The validator's verdict, counts and reports agree with the individual results for every mix of severities.",
    "over": ["inputs", "histories"],
    "forall": "every constraint type x pair of placements x axis and face specification x tolerance of the grids; every set of constraints and severities up to the stated size",
    "why": "The suite does not exercise this module; wrong answers need flipped parts, diagonal gaps, missing faces or zero-length axes.",
    "files": ["src/yapcad/assembly/kinematic_integration.py"],
    "mech": [["constraint evaluation", "assembly/kinematic_integration.py:KinematicConstraint.evaluate"], ["verdict", "assembly/kinematic_integration.py:AssemblyValidator.validate"]],
    "technique": "explicit enumeration of placements and constraint specifications on the real code, judged by independent vector and box geometry",
    "note": "24 placements squared x every specification of the grids; mesh collision is not claimed",
}

EDGE = 1e-5
PLACE = [mat.mul(mat.trans(*t), mat.rot(a, d)) for t, a, d in [
    ((0, 0, 0), (0, 0, 1), 0), ((0, 0, 0), (1, 0, 0), 180), ((10, 0, 0), (0, 0, 1), 0), ((0, 0, 25), (0, 0, 1), 0),
    ((0, 0, 25), (1, 0, 0), 180), ((12, 13, 0), (0, 1, 0), 90), ((3, -4, 2), (0, 0, 1), 90), ((-7, 0.05, 0), (1, 1, 1), 120),
    ((30, 40, 0), (0, 0, 1), 45), ((0, 0, -40), (1, 0, 0), 33), ((0, 0.3, 0), (0, 0, 1), 0.6), ((5, 5, 5), (1, 2, 3), 77),
    ((0, 0, 10), (0, 1, 0), 179.4), ((0, 24, 32), (0, 0, 1), -90),
]]
AXES = ["x", "Y", "z", "-x", "-y", "-z", (1, 1, 0), (0, 0, -5), "w", (0, 0, 0)]
NAMED = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "-x": (-1, 0, 0), "-y": (0, -1, 0), "-z": (0, 0, -1)}
BOXES = [((-2, -3, 0), (2, 3, 20)), ((0, 0, -1), (10, 10, 9)), ((-5, -5, -5), (5, 5, 5)), None]
FACES = [None, "TOP", "bottom", "FRONT", "BACK", "LEFT", "RIGHT", "SHAFT", "GLOBAL", "NOWHERE"]
SHAFT = mat.trans(1, 2, 3)
GLOBAL = mat.trans(7, 7, 7)


def local_axis(s):
    if isinstance(s, str):
        v = NAMED.get(s.lower())
        return None if v is None else list(map(float, v))
    return None if norm(s) < 1e-9 else unit(s)


def within(err, tol):
    return None if abs(err - tol) < EDGE else err < tol


def line_angle(a, b):
    x = angle(a, b)
    return min(x, 180 - x)


def origin(T):
    return [T[i][3] for i in range(3)]


def face_point(T, part, f, box):
    """World position of a face, or None when it cannot be found."""
    if f is None:
        return origin(T)
    if box is not None and f.upper() in ("TOP", "BOTTOM", "FRONT", "BACK", "LEFT", "RIGHT"):
        lo, hi = box
        c = [(a + b) / 2 for a, b in zip(lo, hi)]
        i, v = {"TOP": (2, hi), "BOTTOM": (2, lo), "FRONT": (1, hi), "BACK": (1, lo), "RIGHT": (0, hi), "LEFT": (0, lo)}[f.upper()]
        c[i] = v[i]
        return mat.app(T, c)
    if f == "SHAFT":
        return origin(mat.mul(T, SHAFT))
    if f == "GLOBAL":
        return origin(GLOBAL)
    return None


def world_box(T, box):
    ps = [mat.app(T, p) for p in itertools.product(*zip(*box))]
    return [min(p[i] for p in ps) for i in range(3)], [max(p[i] for p in ps) for i in range(3)]


def gaps(a, b):
    return [max(a[0][i] - b[1][i], b[0][i] - a[1][i]) for i in range(3)]


def world(ia, ib):
    """World transforms in the forms the code accepts."""
    import numpy as np

    class T:
        def __init__(self, m):
            self.matrix = np.array(m, dtype=float)

    w = {"A": T(PLACE[ia]), "A.SHAFT": T(mat.mul(PLACE[ia], SHAFT)), "GLOBAL": GLOBAL}
    if ib is not None:
        w["B"] = [[float(c) for c in r] for r in PLACE[ib]]
        w["B.SHAFT"] = np.array(mat.mul(PLACE[ib], SHAFT), dtype=float)
    return w


def expect(ct, TA, TB, s):
    """(satisfied?, error or None)."""
    if s.get("frame_b") and TB is None:
        return False, None
    if not s.get("frame_b"):
        TB = None
    tmm, tdeg = s.get("tolerance_mm", 0.1), s.get("tolerance_deg", 1.0)
    center, radius = s.get("reference_center"), s.get("reference_radius")
    if ct in ("coincident", "at_distance", "min_distance"):
        pa = face_point(TA, "A", s.get("face_a"), s.get("bounds_a"))
        pb = face_point(TB, "B", s.get("face_b"), s.get("bounds_b")) if TB is not None else center
        if pa is None or pb is None:
            return False, None
        d = norm(sub(pa, pb))
        if ct == "coincident":
            return within(d, tmm), d
        if radius is None:
            return False, None
        if ct == "at_distance":
            return within(abs(d - radius), tmm), abs(d - radius)
        if s.get("bounds_a") and s.get("bounds_b") and TB is not None:
            g = gaps(world_box(TA, s["bounds_a"]), world_box(TB, s["bounds_b"]))
            d = norm([max(x, 0) for x in g]) if max(g) > 0 else max(g)
        ok = within(radius - d, 0.0)
        return ok, max(0.0, radius - d) if ok is not None else None
    if ct == "z_stack_clearance":
        if TB is None or not s.get("bounds_a") or not s.get("bounds_b"):
            return False, None
        za, zb = [[p[2] for p in world_box(T, s[k])] for T, k in ((TA, "bounds_a"), (TB, "bounds_b"))]
        g = max(za[0], zb[0]) - min(za[1], zb[1])  # negative: length of the common Z range
        need = radius or 0.0
        if abs(g) < EDGE or abs(g - need) < EDGE:
            return None, None
        return g >= need, (0.0 if g >= need else need - g)
    if ct == "no_overlap":
        if TB is None:
            return False, None
        if not s.get("bounds_a") or not s.get("bounds_b"):
            return None, None
        g = max(gaps(world_box(TA, s["bounds_a"]), world_box(TB, s["bounds_b"])))
        return (None if abs(g) < EDGE else g > 0), None if abs(g) < EDGE else max(0.0, -g)
    la = local_axis(s.get("axis_a", "z"))
    if la is None:
        return False, None
    a = mat.app(TA, la, 0.0)
    if ct == "tangent":
        if center is None:
            return False, None
        rad = sub(origin(TA), center)
        rad[2] = 0.0
        if norm(rad) < 1e-9:
            return False, None
        flat = [a[0], a[1], 0.0]
        if norm(flat) < 1e-9:
            return True, 0.0
        e = 90 - line_angle(flat, rad)
        return within(e, tdeg), e
    if ct == "bolt_pattern" and (s.get("pattern_count", 0) < 2 or s.get("pattern_radius", 0) <= 0):
        return False, None
    if TB is not None:
        lb = local_axis(s.get("axis_b", "z"))
        b, ob = None if lb is None else mat.app(TB, lb, 0.0), origin(TB)
    else:
        r = s.get("reference_normal" if ct == "bolt_pattern" else "reference_axis")
        b, ob = None if r is None or norm(r) < 1e-9 else unit(r), center
        if ct in ("concentric", "bolt_pattern") and center is None:
            return False, None
    if b is None:
        return False, None
    if ct in ("parallel", "perpendicular"):
        e = line_angle(a, b)
        e = e if ct == "parallel" else 90 - e
        return within(e, tdeg), e
    ang = line_angle(a, b)
    v = sub(ob, origin(TA))
    d = norm(v) if ct == "bolt_pattern" else norm(cross(v, a))
    x, y = within(ang, tdeg), within(d, tmm)
    ok = False if x is False or y is False else None if x is None or y is None else True
    return ok, max(ang, d)


def judge(kind, case):
    return globals()["judge_" + kind](case)


def make(ct, s, name="c"):
    from yapcad.assembly.kinematic_integration import KinematicConstraint, KinematicConstraintType

    return KinematicConstraint(name=name, constraint_type=KinematicConstraintType(ct), frame_a=s.pop("frame_a", "A"), **s)


def judge_con(case):
    ct, ia, ib, spec = case
    s = dict(spec)
    TA, TB = PLACE[ia], (None if ib is None else PLACE[ib])
    want, err = expect(ct, TA, TB, s)
    c = make(ct, dict(s))
    w = world(ia, ib)
    for again in range(2):  # evaluation leaves nothing behind
        res = c.evaluate(w)
        what = "%s A=#%d B=%s %r" % (ct, ia, ib, s)
        if want is None:
            break
        require(bool(res.satisfied) == want, "%s: %s, expected %s" % (what, res, "pass" if want else "fail"))
        if err is not None:
            require(abs(float(res.error) - err) < 2e-5, "%s: error %.9g, true %.9g" % (what, res.error, err))
    # the same constraint re-used on another placement answers for that one
    jb = None if ib is None else (ib + 1) % len(PLACE)
    ja = (ia + 3) % len(PLACE)
    want2, _ = expect(ct, PLACE[ja], None if jb is None else PLACE[jb], s)
    res = c.evaluate(world(ja, jb))
    if want2 is not None:
        require(bool(res.satisfied) == want2, "%s then A=#%d B=%s: %s, expected %s" % (what, ja, jb, res, "pass" if want2 else "fail"))
    return Out(ct, [h((ct, want))], 3)


def judge_helper(case):
    """The create_* helpers build the constraint they describe."""
    from yapcad.assembly import kinematic_integration as K

    ia, ib, which = case
    TA, TB = PLACE[ia], PLACE[ib]
    b1, b2 = BOXES[0], BOXES[1]
    c, ct, s = {
        "tangent": lambda: (K.create_tangent_constraint("n", "A", (1, 1, 1), axis="x", tolerance_deg=20), "tangent", {"axis_a": "x", "reference_center": (1, 1, 1), "tolerance_deg": 20}),
        "parallel": lambda: (K.create_parallel_constraint("n", "A", "B", axis_a="x", axis_b="-y", tolerance_deg=5), "parallel", {"frame_b": "B", "axis_a": "x", "axis_b": "-y", "tolerance_deg": 5}),
        "parref": lambda: (K.create_parallel_constraint("n", "A", axis_a="y", reference_axis=(0, 3, 3)), "parallel", {"axis_a": "y", "reference_axis": (0, 3, 3)}),
        "coin": lambda: (K.create_coincident_constraint("n", "A", "B", tolerance_mm=11), "coincident", {"frame_b": "B", "tolerance_mm": 11}),
        "coinref": lambda: (K.create_coincident_constraint("n", "A", reference_point=(3, -4, 1), tolerance_mm=3), "coincident", {"reference_center": (3, -4, 1), "tolerance_mm": 3}),
        "zstack": lambda: (K.create_z_stack_clearance_constraint("n", "A", "B", b1, b2, min_clearance=4), "z_stack_clearance", {"frame_b": "B", "bounds_a": b1, "bounds_b": b2, "reference_radius": 4}),
        "overlap": lambda: (K.create_no_overlap_constraint("n", "A", "B", b1, b2), "no_overlap", {"frame_b": "B", "bounds_a": b1, "bounds_b": b2}),
        "min": lambda: (K.create_min_distance_constraint("n", "A", "B", 6.5, b1, b2), "min_distance", {"frame_b": "B", "bounds_a": b1, "bounds_b": b2, "reference_radius": 6.5}),
        "facedist": lambda: (K.create_face_distance_constraint("n", "A", "TOP", "B", "LEFT", 12.0, 8.0, b1, b2), "at_distance", {"frame_b": "B", "face_a": "TOP", "face_b": "LEFT", "bounds_a": b1, "bounds_b": b2, "reference_radius": 12.0, "tolerance_mm": 8.0}),
        "facecoin": lambda: (K.create_face_coincident_constraint("n", "A", "BOTTOM", "B", "SHAFT", 9.0, b1), "coincident", {"frame_b": "B", "face_a": "BOTTOM", "face_b": "SHAFT", "bounds_a": b1, "tolerance_mm": 9.0}),
    }[which]()
    want, err = expect(ct, TA, TB, s)
    res = c.evaluate(world(ia, ib))
    if want is not None:
        require(bool(res.satisfied) == want, "%s A=#%d B=#%d: %s, expected %s" % (which, ia, ib, res, want))
        if err is not None:
            require(abs(float(res.error) - err) < 2e-5, "%s A=#%d B=#%d: error %.9g, true %.9g" % (which, ia, ib, res.error, err))
    require(c.name == "n" and c.severity == "error" and c.description, "%s: %r" % (which, c))
    return Out("helper", [], 1)


def judge_report(case):
    from yapcad.assembly.kinematic_integration import AssemblyValidator, ConstraintEvaluationResult, validate_assembly

    rows = case
    cons, exp = [], {}
    for i, (mode, sev) in enumerate(rows):
        def val(w, mode=mode):
            if mode == "raise":
                raise KeyError("gone")
            return ConstraintEvaluationResult(satisfied=mode == "pass", error=0.0 if mode == "pass" else 2.5, error_message="m")

        s = {"severity": sev}
        if mode != "none":
            s["validator"] = val
        if mode == "ghost":
            cons.append(make("coincident", {"severity": sev, "frame_a": "ghost"}, "c%d" % i))
        else:
            cons.append(make("custom", s, "c%d" % i))
        exp["c%d" % i] = mode == "pass"
    v = AssemblyValidator("v")
    v.add_constraint(cons[0]) if cons else None
    v.add_constraints(cons[1:])
    w = world(0, 1)
    for rep in (v.validate(w), validate_assembly(cons, w), v.validate(w)):
        bad = [n for n in exp if not exp[n]]
        sev = {"c%d" % i: s for i, (_, s) in enumerate(rows)}
        errs = [n for n in bad if sev[n] == "error"]
        require(rep.is_valid == (not errs), "%r: valid=%s" % (rows, rep.is_valid))
        require(rep.failed_constraints == errs and rep.failed_count == len(errs), "%r: failed %r" % (rows, rep.failed_constraints))
        require({n: r.satisfied for n, r in rep.constraint_results.items()} == exp, "%r: results %r" % (rows, rep.constraint_results))
        require(rep.total_constraints == len(rows) and rep.passed_count == len(rows) - len(bad), "%r: %s" % (rows, rep))
        require([x.split(":")[0] for x in rep.warnings] == [n for n in bad if sev[n] == "warning"] and rep.warning_count == len(rep.warnings), "%r: warnings %r" % (rows, rep.warnings))
        require([x.split(":")[0] for x in rep.info] == [n for n in bad if sev[n] == "info"], "%r: info %r" % (rows, rep.info))
        text = rep.detailed_report()
        require(("STATUS: VALID" in text) == (not errs) and all("[%s]" % n in text for n in errs), "%r: report %s" % (rows, text))
        require(all(("[OK] %s" % n in text) == exp[n] for n in exp), "%r: report %s" % (rows, text))
    try:
        v.validate_and_raise(w)
        raised = ""
    except ValueError as e:
        raised = str(e)
    require(bool(raised) == bool(errs) and all("[%s]" % n in raised for n in errs), "%r: raised %r" % (rows, raised))
    v.clear_constraints()
    require(v.validate(w).total_constraints == 0, "constraints are left after clear_constraints")
    return Out("report", [h(tuple(rows))], 5)


def con_cases(ctx):
    n = len(PLACE)
    P = list(itertools.product(range(n), range(n)))
    bs = list(itertools.product(BOXES, BOXES))
    for ia, ib in P:
        # positions
        for fa, fb, (ba, bb) in itertools.product(FACES, FACES, bs):
            if not ctx.thorough and (FACES.index(fa) + FACES.index(fb) + ia + ib) % 4:
                continue
            s = (("frame_b", "B"), ("face_a", fa), ("face_b", fb), ("bounds_a", ba), ("bounds_b", bb))
            yield ("coincident", ia, ib, s + (("tolerance_mm", 8.0),))
            yield ("at_distance", ia, ib, s + (("reference_radius", 12.0), ("tolerance_mm", 5.0)))
            yield ("min_distance", ia, ib, s + (("reference_radius", 9.0),))
        for ba, bb in bs:
            for r in (None, 0.0, 3.0, 18.0):
                s = (("frame_b", "B"), ("bounds_a", ba), ("bounds_b", bb), ("reference_radius", r))
                yield ("z_stack_clearance", ia, ib, s)
                yield ("no_overlap", ia, ib, s)
                yield ("min_distance", ia, ib, s)
        # axes
        for xa, xb in itertools.product(AXES, AXES):
            s = (("frame_b", "B"), ("axis_a", xa), ("axis_b", xb))
            for tol in (1.0, 50.0):
                yield ("parallel", ia, ib, s + (("tolerance_deg", tol),))
                yield ("perpendicular", ia, ib, s + (("tolerance_deg", tol),))
                yield ("concentric", ia, ib, s + (("tolerance_deg", tol), ("tolerance_mm", 0.1 if tol == 1.0 else 15.0)))
            yield ("bolt_pattern", ia, ib, s + (("pattern_count", 4), ("pattern_radius", 20.0), ("tolerance_mm", 12.0)))
    for ia in range(n):
        for xa in AXES:
            for c in ((0, 0, 0), (3, -4, 99), (1, 2, 3), None):
                for tol in (0.5, 1.0, 40.0):
                    yield ("tangent", ia, None, (("axis_a", xa), ("reference_center", c), ("tolerance_deg", tol)))
                for r in ((0, 0, 1), (1, 1, 0), (0, 0, 0), None):
                    s = (("axis_a", xa), ("reference_center", c), ("reference_axis", r), ("reference_normal", r))
                    for ct in ("parallel", "perpendicular", "concentric", "bolt_pattern"):
                        for pc, pr in ((4, 5.0), (1, 5.0), (4, 0.0)) if ct == "bolt_pattern" else ((0, 0.0),):
                            yield (ct, ia, None, s + (("tolerance_mm", 5.0), ("pattern_count", pc), ("pattern_radius", pr)))
        for fa, ba, c, r in itertools.product(FACES, BOXES, ((0, 0, 0), (3, -4, 2), None), (None, 4.0)):
            for ct in ("coincident", "at_distance", "min_distance"):
                yield (ct, ia, None, (("face_a", fa), ("bounds_a", ba), ("bounds_b", ba), ("reference_center", c), ("reference_radius", r), ("tolerance_mm", 3.0)))
        for ct in ("coincident", "at_distance", "min_distance", "parallel", "concentric", "perpendicular", "bolt_pattern", "z_stack_clearance", "no_overlap"):
            # frame_b named but absent from the transforms
            yield (ct, ia, None, (("frame_b", "B"), ("reference_center", (0, 0, 0)), ("reference_axis", (0, 0, 1)), ("reference_radius", 1.0)))


def run(ctx):
    n = len(PLACE)
    which = ["tangent", "parallel", "parref", "coin", "coinref", "zstack", "overlap", "min", "facedist", "facecoin"]
    rows = list(itertools.product(("pass", "fail", "raise", "none", "ghost"), ("error", "warning", "info")))
    ctx.explore(judge, [
        ("con", con_cases(ctx), 512),
        ("helper", itertools.product(range(n), range(n), which), 64),
        ("report", (c for k in range(0, ctx.pick(3, 4)) for c in itertools.product(rows, repeat=k)), 64),
    ])
    ctx.assumptions.append("errors within 1e-5 of a tolerance, and boxes that exactly touch, are not judged")
    ctx.assumptions.append("mesh collision (random face sampling) and no-overlap without any geometry are not claimed")
