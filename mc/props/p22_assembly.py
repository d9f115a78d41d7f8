"""P22: an assembly is reported valid exactly when every placed datum meets its constraints."""
import itertools
import json
import math
import os
import tempfile

from mc import mat
from mc.core import Out, h, require
from mc.props.p21_mates import DIRS, GRID, angle, datum, direction, dot, norm, sub, unit

META = {
    "id": "P22",
    "title": "An assembly is valid exactly when its placed datums meet every constraint",
    "statement": "A design constraint (tangent, radial, facing, at-radius, parallel, perpendicular, custom) passes exactly when the geometry it names holds within its tolerance, and reports the true error. An assembly judges every constraint on the datum moved by its part's current transform: it is valid exactly when no error-severity constraint fails, and the raising form and the reports name every failure. No history of adding parts, mates, constraints, load cases or bolt patterns, of importing kinematic transforms or of refused operations leaves references to unknown parts or datums, nor is anything changed by a refused operation.",
    "over": ["inputs", "histories"],
    "forall": "every constraint type x datum kind x direction x position x tolerance of the grids; every history of assembly operations up to the stated depth",
    "why": "The suite checks a few hand-picked directions and one order of operations; wrong signs, projections, boundary comparisons or half-applied imports show only for other directions, centres, tolerances or orders.",
    "files": ["src/yapcad/assembly/constraint.py", "src/yapcad/assembly/assembly.py", "src/yapcad/assembly/load_case.py", "src/yapcad/assembly/datum.py"],
    "mech": [["constraint evaluation", "assembly/constraint.py:Constraint.evaluate"], ["assembly validation", "assembly/assembly.py:Assembly.validate"], ["transform import", "assembly/assembly.py:import_transforms_from_kinematic_chain"]],
    "technique": "explicit enumeration of constraint configurations and assembly operation histories on the real code, judged by independent vector geometry and a model of the assembly",
    "note": "7 constraint types x 5 datum kinds x 38 directions x 6 positions x tolerances; histories to depth 4 (quick) / 5 (thorough)",
}

POS = [(10, 0, 0), (0, 0, 5), (3, -4, 2), (-7, 7, 0), (1e-3, 0, 9), (-2, 11, -3)]
CENTERS = [(0, 0, 0), (1, -2, 40), None]
TOLS = [0.0, 0.5, 1.0, 30.0, 90.0]
KINDS = ["point", "axis", "plane", "circle", "frame"]
EDGE = 1e-5  # degrees / mm around a tolerance that are not judged
FACES = {"+x": (1, 0, 0), "-x": (-1, 0, 0), "+y": (0, 1, 0), "-y": (0, -1, 0), "+z": (0, 0, 1), "-z": (0, 0, -1)}


def within(err, tol):
    """True/False, or None when too close to tell."""
    if abs(err - tol) < EDGE:
        return None
    return err < tol


def line_angle(a, b):
    x = angle(a, b)
    return min(x, 180 - x)


def expect(ct, kind, o, d, p):
    """(passes?, true error or None) for one datum in world coordinates."""
    dd = direction(kind, d)
    c, r, tol = p.get("center"), p.get("radius"), p.get("tolerance_deg", 1.0)
    if ct in ("tangent_to_circle", "at_radius") and (c is None or r is None):
        return False, None
    if ct == "radial_from_center" and (c is None or p.get("direction") not in ("inward", "outward")):
        return False, None
    if ct in ("tangent_to_circle", "radial_from_center", "at_radius"):
        rad = [o[0] - c[0], o[1] - c[1], 0.0]
    if ct == "at_radius":
        e = abs(norm(rad) - r)
        return within(e, p.get("tolerance_mm", 0.1)), e
    if ct == "facing":
        if kind not in ("plane", "circle") or p.get("direction") is None or p["direction"].lower() not in FACES:
            return False, None
        e = angle(dd, FACES[p["direction"].lower()])
        return within(e, tol), e
    if ct in ("parallel_to", "perpendicular_to"):
        if p.get("axis") is None or dd is None:
            return False, None
        e = line_angle(dd, p["axis"])
        e = e if ct == "parallel_to" else 90 - e
        return within(e, tol), e
    if norm(rad) < 1e-9 or dd is None:
        return False, None
    if ct == "tangent_to_circle":
        flat = [dd[0], dd[1], 0.0]
        if norm(flat) < 1e-9:
            return True, 0.0
        if norm(flat) < 1e-6:
            return None, None
        e = 90 - line_angle(flat, rad)
        return within(e, tol), e
    e = angle(dd, rad if p["direction"] == "outward" else [-x for x in rad])
    ok = within(e, tol)
    if tol == 0.0 and e == 0.0 and sum(map(bool, rad)) == 1 and sum(map(bool, d)) == 1:  # no rounding here
        ok = True
    return ok, (e if ok is False else None)


def judge(kind, case):
    return globals()["judge_" + kind](case)


def params(ct, p):
    from yapcad.assembly.constraint import ConstraintType

    return dict(constraint_type=ConstraintType(ct), **p)


def judge_con(case):
    from yapcad.assembly import constraint as C

    ct, kind, oi, di, p = case
    o, d = POS[oi] if isinstance(oi, int) else oi, DIRS[di]
    p = dict(p)
    n = 0
    for scale in (1.0, 7.0):
        dm = datum(kind, o, d, scale=scale)
        con = C.Constraint(name="c", part="p", datum="d", **params(ct, p))
        res = con.evaluate(dm)
        want, err = expect(ct, kind, o, d, p)
        n += 1
        if want is None:
            continue
        require(bool(res.passed) == want, "%s on %s at %r along %r with %r: %s, expected %s" % (ct, kind, o, d, p, res, "pass" if want else "fail"))
        if err is not None:
            require(abs(res.error_value - err) < 1e-5, "%s on %s at %r along %r with %r: error %.9g, true %.9g" % (ct, kind, o, d, p, res.error_value, err))
        require(str(res).startswith("[PASS]" if want else "[FAIL]"), "printed as %s" % res)
        if kind == "axis" and p.get("center") is not None:
            v = [x * scale for x in d]
            if ct == "tangent_to_circle" and p.get("radius") is not None:
                got = C.is_tangent_to_circle(tuple(o), tuple(v), p["center"], p["radius"], p["tolerance_deg"])
                require(bool(got) == want, "is_tangent_to_circle(%r, %r, %r, tol %g) = %s" % (o, v, p["center"], p["tolerance_deg"], got))
            if ct == "radial_from_center" and p.get("direction") in ("inward", "outward"):
                got = C.is_radial_from_center(tuple(o), tuple(v), p["center"], p["direction"], p["tolerance_deg"])
                require(bool(got) == want, "is_radial_from_center(%r, %r, %r, %s, tol %g) = %s" % (o, v, p["center"], p["direction"], p["tolerance_deg"], got))
    return Out(ct, [h((ct, kind, want))], n)


def judge_vec(case):
    from yapcad.assembly import constraint as C

    i, j = case
    a, b = DIRS[i], DIRS[j]
    require(abs(C.angle_between_vectors(a, b) - angle(a, b)) < 2e-5, "angle between %r and %r: %r" % (a, b, C.angle_between_vectors(a, b)))
    require(abs(C.distance_to_point(a, b) - norm(sub(a, b))) < 1e-9, "distance %r %r" % (a, b))
    require(abs(C.dot_product(a, b) - dot(a, b)) < 1e-9, "dot %r %r" % (a, b))
    return Out("vec", [], 3)


def judge_custom(case):
    from yapcad.assembly.constraint import Constraint, ConstraintType

    mode, sev = case
    seen = []

    def boom(d):
        raise RuntimeError("no")

    fn = {"true": lambda d: seen.append(d) or True, "false": lambda d: seen.append(d) or False, "raise": boom, "none": None}[mode]
    dm = datum("axis", (1, 2, 3), (0, 1, 0))
    res = Constraint(name="c", constraint_type=ConstraintType.CUSTOM, part="p", datum="d", validator=fn, severity=sev).evaluate(dm)
    require(bool(res.passed) == (mode == "true"), "custom %s -> %s" % (mode, res))
    if seen:
        require(seen == [dm], "validator was called with %r" % (seen,))
    return Out("custom", [], 1)


# --- assembly histories ----------------------------------------------------
PARTDEF = {
    # part definition -> datum -> (kind, origin, direction)
    "plate": {"top": ("plane", (0, 0, 5), (0, 0, 1)), "bore": ("axis", (10, 0, 0), (0, 0, 1)), "pt": ("point", (3, 4, 0), (0, 0, 1))},
    "arm": {"tip": ("axis", (7, 0, 0), (1, 0, 0)), "face": ("plane", (0, 2, 0), (0, 1, 0))},
}
PLACES = {
    "id": None,
    "q": mat.mul(mat.trans(5, -3, 2), mat.rot((0, 0, 1), 90)),
    "t": mat.mul(mat.trans(0, 0, 11), mat.rot((1, 1, 0), 180)),
    "s": mat.mul(mat.trans(-6, 1, 0), mat.rot((1, 0, 0), 33)),
}
CONS = {
    "c_face": ("arm", "face", "facing", {"direction": "+y", "tolerance_deg": 1.0}, "error"),
    "c_rad": ("arm", "tip", "radial_from_center", {"center": (0, 0, 0), "direction": "outward", "tolerance_deg": 2.0}, "error"),
    "c_at": ("plate", "bore", "at_radius", {"center": (0, 0, 0), "radius": 10.0, "tolerance_mm": 0.5}, "warning"),
    "c_par": ("plate", "top", "parallel_to", {"axis": (0, 0, 1), "tolerance_deg": 1.0}, "error"),
    "c_tan": ("plate", "bore", "tangent_to_circle", {"center": (0, 0, 0), "radius": 10.0, "tolerance_deg": 1.0}, "info"),
    "c_nopart": ("ghost", "top", "parallel_to", {"axis": (0, 0, 1)}, "error"),
    "c_nodatum": ("plate", "tip", "parallel_to", {"axis": (0, 0, 1)}, "error"),
}
MATES = {
    # name -> (type, part1, datum1, part2, datum2, acceptable)
    "m_con": ("concentric", "plate", "bore", "arm", "tip", True),
    "m_coin": ("coincident", "plate", "top", "arm", "face", True),
    "m_par": ("parallel", "arm", "face", "plate", "top", True),
    "m_perp": ("perpendicular", "plate", "top", "arm", "face", True),
    "m_badtype": ("concentric", "plate", "pt", "arm", "tip", False),
    "m_nopart": ("coincident", "plate", "top", "ghost", "face", False),
    "m_nodatum": ("coincident", "plate", "nope", "arm", "face", False),
}
DOF = {"coincident": 3, "concentric": 2, "parallel": 2, "perpendicular": 1}
# imported files: part -> matrix spec
FILES = {
    "f_flat": ("ok", {"plate": ("q", "flat"), "arm": ("t", "nested"), "ghost": ("q", "flat")}),
    "f_chain": ("chain", {"arm": ("s", None)}),
    "f_half": ("bad", {"arm": ("q", "nested"), "plate": ("t", "short")}),
    "f_missing": ("bad", {"arm": ("s", "nested"), "plate": ("t", "none")}),
    "f_noparts": ("bad", None),
    "f_notjson": ("bad", "text"),
    "f_absent": ("bad", "absent"),
}
LOADS = {"l_plate": ("plate", "lc1"), "l_all": ("_assembly", "lc2"), "l_ghost": ("ghost", "lc3"), "l_dup": ("plate", "lc1")}
BOLTS = {"b_pa": ("plate", "arm"), "b_ap": ("arm", "plate"), "b_ghost": ("plate", "ghost")}


def partdef(name):
    from yapcad.assembly.datum import PartDefinition

    p = PartDefinition(name=name)
    for dn, (k, o, d) in PARTDEF[name].items():
        p.add_datum(datum(k, o, d, name=dn))
    return p


def write_file(folder, name):
    how, spec = FILES[name]
    path = os.path.join(folder, name + ".json")
    if spec == "absent":
        return path
    if how == "chain":
        from yapcad.kinematics import KinematicChain, KinematicPart
        from yapcad.kinematics.transform import Transform

        ch = KinematicChain("c")
        root = KinematicPart("carrier")
        for part, (pl, _) in spec.items():
            root.add_frame("F_" + part, Transform.from_matrix(PLACES[pl]))
        ch.add_part(root)
        for part in spec:
            ch.add_part(KinematicPart(part, parent="carrier", parent_frame="F_" + part))
        ch.export_json(path)
        return path
    if spec == "text":
        text = "{parts: nope"
    elif spec is None:
        text = json.dumps({"name": "x"})
    else:
        parts = {}
        for part, (pl, form) in spec.items():
            m = [[float(c) for c in r] for r in PLACES[pl]]
            if form == "flat":
                parts[part] = {"transform": [c for r in m for c in r]}
            elif form == "nested":
                parts[part] = {"transform": m}
            elif form == "short":
                parts[part] = {"transform": m[:3]}
            else:
                parts[part] = {"color": "red"}
        text = json.dumps({"parts": parts})
    with open(path, "w") as f:
        f.write(text)
    return path


class Model:
    """What the assembly must contain after the accepted operations."""

    def __init__(self):
        self.parts, self.place, self.mates, self.cons, self.loads, self.bolts = {}, {}, [], [], {}, {}


def mat_of(pl):
    m = PLACES[pl]
    return mat.eye() if m is None else [[float(c) for c in r] for r in m]


OPS = (
    [("part", n, d, pl) for n, d, pl in [("plate", "plate", "id"), ("arm", "arm", "q"), ("arm", "arm", "t"), ("plate", "arm", "s")]]
    + [("con", c) for c in CONS]
    + [("mate", m) for m in MATES]
    + [("import", f) for f in FILES]
    + [("place", "arm", "s"), ("place", "plate", "t")]
    + [("load", x) for x in LOADS]
    + [("bolt", x) for x in BOLTS]
)


def model_op(m, op):
    """Apply op to the model; True if it must be accepted."""
    k = op[0]
    if k == "part":
        _, n, d, pl = op
        if n in m.parts:
            return False
        m.parts[n], m.place[n] = d, mat_of(pl)
        return True
    if k == "con":
        part, dm = CONS[op[1]][:2]
        if part not in m.parts or dm not in PARTDEF[m.parts[part]]:
            return False
        m.cons.append(op[1])
        return True
    if k == "mate":
        t, p1, d1, p2, d2, okay = MATES[op[1]]
        if p1 not in m.parts or p2 not in m.parts or d1 not in PARTDEF[m.parts[p1]] or d2 not in PARTDEF[m.parts[p2]]:
            return False
        k1, k2 = PARTDEF[m.parts[p1]][d1][0], PARTDEF[m.parts[p2]][d2][0]
        if t == "concentric" and not {k1, k2} <= {"axis", "circle"}:
            return False
        m.mates.append(op[1])
        return True
    if k == "import":
        how, spec = FILES[op[1]]
        if how == "bad":
            # parts of a bad file that this assembly does not have are skipped
            if isinstance(spec, dict) and "plate" not in m.parts:
                if "arm" in m.parts:
                    m.place["arm"] = mat_of(spec["arm"][0])
                return True
            return False
        for part, (pl, _) in spec.items():
            if part in m.parts:
                m.place[part] = mat_of(pl)
        return True
    if k == "place":
        if op[1] not in m.parts:
            return None
        m.place[op[1]] = mat_of(op[2])
        return True
    if k == "load":
        part, i = LOADS[op[1]]
        if (part != "_assembly" and part not in m.parts) or i in m.loads:
            return False
        m.loads[i] = op[1]
        return True
    key = BOLTS[op[1]]
    if key[0] not in m.parts or key[1] not in m.parts or key in m.bolts:
        return False
    m.bolts[key] = op[1]
    return True


def do_op(asm, op, folder, keep):
    import numpy as np
    from yapcad.assembly.constraint import Constraint
    from yapcad.assembly.load_case import BoltPattern, LoadAttach, LoadCase
    from yapcad.assembly.mate import Mate, MateType

    k = op[0]
    if k == "part":
        _, n, d, pl = op
        T = None if PLACES[pl] is None else np.array(PLACES[pl], dtype=float)
        asm.add_part(partdef(d), name=n, transform=T)
        if T is not None:
            T[:] = 77.0  # the caller may reuse its matrix
    elif k == "con":
        part, dm, ct, p, sev = CONS[op[1]]
        asm.add_constraint(Constraint(name=op[1], part=part, datum=dm, severity=sev, **params(ct, p)))
    elif k == "mate":
        t, p1, d1, p2, d2, _ = MATES[op[1]]
        asm.add_mate(Mate(name=op[1], mate_type=MateType(t), part_a=p1, datum_a=d1, part_b=p2, datum_b=d2))
    elif k == "import":
        asm.import_transforms_from_kinematic_chain(write_file(folder, op[1]))
    elif k == "place":
        asm.transforms[op[1]] = np.array(PLACES[op[2]], dtype=float)
    elif k == "load":
        part, i = LOADS[op[1]]
        asm.add_load_case(LoadCase(id=i, name=op[1], group="handling", direction=[0, 0, 1], attach=LoadAttach(part=part), magnitude_n=5.0))
    else:
        a, b = BOLTS[op[1]]
        asm.add_bolt_pattern(a, b, keep.setdefault(op[1], BoltPattern(40.0, 6, "m4", [0, 0, 1])))


def compare(asm, m, what):
    from yapcad.assembly.assembly import AssemblyError

    require(set(asm.parts) == set(m.parts), "%s: parts %r, expected %r" % (what, sorted(asm.parts), sorted(m.parts)))
    require(set(asm.transforms) == set(m.parts), "%s: transforms of %r" % (what, sorted(asm.transforms)))
    for n in m.parts:
        require(asm.parts[n].name == m.parts[n], "%s: part %s is a %s" % (what, n, asm.parts[n].name))
        require(mat.diff([[float(c) for c in r] for r in asm.transforms[n]], m.place[n]) < 1e-9, "%s: part %s placed at %s" % (what, n, asm.transforms[n].tolist()))
        for dn, (k, o, d) in PARTDEF[m.parts[n]].items():
            w = asm.get_transformed_datum(n, dn)
            require(norm(sub(list(w.origin[:3]), mat.app(m.place[n], o))) < 1e-9, "%s: datum %s.%s at %r" % (what, n, dn, w.origin))
    require([c.name for c in asm.constraints] == m.cons, "%s: constraints %r, expected %r" % (what, [c.name for c in asm.constraints], m.cons))
    require([c.name for c in asm.mates] == m.mates, "%s: mates %r, expected %r" % (what, [c.name for c in asm.mates], m.mates))
    require({k: v.name for k, v in asm.load_cases.items()} == m.loads, "%s: load cases %r" % (what, asm.load_cases))
    require(set(asm.bolt_patterns) == set(m.bolts), "%s: bolt patterns %r" % (what, list(asm.bolt_patterns)))
    for bad in (("ghost", "top"), ("plate", "ghost")):
        try:
            asm.get_transformed_datum(*bad)
        except AssemblyError:
            continue
        require(False, "%s: unknown datum %r was answered" % (what, bad))
    # degrees of freedom
    dof = {n: 6 for n in m.parts}
    for x in m.mates:
        t, p2 = MATES[x][0], MATES[x][3]
        dof[p2] = max(0, dof[p2] - DOF[t])
    require(asm.get_degrees_of_freedom() == dof, "%s: degrees of freedom %r, expected %r" % (what, asm.get_degrees_of_freedom(), dof))
    # validation
    fails, warns, judged = [], [], True
    for c in m.cons:
        part, dm, ct, p, sev = CONS[c]
        k, o, d = PARTDEF[m.parts[part]][dm]
        okay, _ = expect(ct, k, mat.app(m.place[part], o), mat.app(m.place[part], d, 0.0), p)
        if okay is None:
            judged = False
        elif not okay and sev == "error":
            fails.append(c)
        elif not okay and sev == "warning":
            warns.append(c)
    if not judged:
        return None
    res = asm.validate()
    require(res.is_valid == (not fails), "%s: valid=%s with failing %r" % (what, res.is_valid, fails))
    require(sorted(res.failed_constraints) == sorted(fails), "%s: failed %r, expected %r" % (what, res.failed_constraints, fails))
    require(set(res.constraint_results) == set(m.cons), "%s: results for %r" % (what, list(res.constraint_results)))
    require([w.split(":")[0] for w in res.warnings] == warns, "%s: warnings %r, expected %r" % (what, res.warnings, warns))
    try:
        asm.validate_and_raise()
        raised = None
    except AssemblyError as e:
        raised = str(e)
    require((raised is None) == (not fails), "%s: validate_and_raise %s with failing %r" % (what, "raised" if raised else "did not raise", fails))
    for text, where in ((raised or "", "exception"), (asm.report(), "assembly report"), (res.report(), "validation report")):
        for c in fails:
            require(c in text, "%s: the %s does not name %s" % (what, where, c))
    require(("STATUS: VALID" in asm.report()) == (not fails), "%s: report says %s" % (what, asm.report()))
    require(("STATUS: VALID" in res.report()) == (not fails), "%s: report says %s" % (what, res.report()))
    return not fails


def judge_hist(case):
    from yapcad.assembly.assembly import Assembly, AssemblyError

    prefix, ops = case
    asm, m, keep, states = Assembly("a"), Model(), {}, []
    with tempfile.TemporaryDirectory(prefix="p22") as folder:
        for i, op in enumerate(list(prefix) + list(ops)):
            before = None
            want = model_op(m, op)
            if want is None:
                continue
            what = "after %r" % (list(prefix + ops)[: i + 1],)
            try:
                do_op(asm, op, folder, keep)
                done = True
            except (AssemblyError, ValueError) as e:
                done = False
            require(done == want, "%s: %s, expected %s" % (what, "accepted" if done else "refused", "accepted" if want else "refused"))
            if i >= len(prefix):
                v = compare(asm, m, what)
                states.append(h((sorted(m.parts.items()), sorted((k, str(p)) for k, p in m.place.items()), m.cons, m.mates, sorted(m.loads), sorted(m.bolts), v)))
    return Out("hist", states, len(ops))


def judge_load(case):
    """Load cases and bolt patterns keep their data and refuse nonsense."""
    from yapcad.assembly.load_case import BoltPattern, LoadAttach, LoadCase

    kind, kw, ok = case
    kw = dict(kw)
    try:
        if kind == "bolt":
            x = BoltPattern(**kw)
            cls = BoltPattern
        else:
            x = LoadCase(attach=LoadAttach(**kw.pop("attach")), **kw)
            cls = LoadCase
    except ValueError:
        require(not ok, "%s %r refused" % (kind, case[1]))
        return Out("refused", [], 1)
    require(ok, "%s %r accepted" % (kind, case[1]))
    back = cls.from_dict(json.loads(json.dumps(x.to_dict())))
    require(back.to_dict() == x.to_dict(), "%s: %r became %r" % (kind, x.to_dict(), back.to_dict()))
    require(type(x) is type(back) and [list(v) if isinstance(v, tuple) else v for v in vars(back).values() if not hasattr(v, "part")] == [list(v) if isinstance(v, tuple) else v for v in vars(x).values() if not hasattr(v, "part")], "%s: %r became %r" % (kind, x, back))
    if kind == "load":
        require(back.attach == x.attach, "load attach %r became %r" % (x.attach, back.attach))
    return Out("load", [], 1)


def con_cases(ctx):
    dirs = range(len(DIRS))
    poss = list(range(len(POS)))
    for kind in KINDS:
        for oi, di, c, tol in itertools.product(poss, dirs, CENTERS, TOLS):
            for r in (10.0, None):
                if r is None and (tol != 1.0 or c is None):
                    continue
                yield ("tangent_to_circle", kind, oi, di, (("center", c), ("radius", r), ("tolerance_deg", tol)))
            for way in ("inward", "outward", "sideways"):
                if way == "sideways" and tol != 1.0:
                    continue
                yield ("radial_from_center", kind, oi, di, (("center", c), ("direction", way), ("tolerance_deg", tol)))
        for di, tol in itertools.product(dirs, TOLS):
            for f in list(FACES) + ["+X", "-Z", "up", None]:
                yield ("facing", kind, 0, di, (("direction", f), ("tolerance_deg", tol)))
            for ai in list(dirs) + [None]:
                if ai is not None and not (ctx.thorough or ai % 3 == di % 3):
                    continue
                for ct in ("parallel_to", "perpendicular_to"):
                    yield (ct, kind, 0, di, (("axis", None if ai is None else tuple(float(x) for x in DIRS[ai])), ("tolerance_deg", tol)))
        for oi, c, r, tol in itertools.product(poss, CENTERS, (0.0, 5.0, 10.0, None), (0.0, 0.1, 5.5)):
            yield ("at_radius", kind, oi, 0, (("center", c), ("radius", r), ("tolerance_mm", tol)))


def load_cases():
    base = {"id": "a", "name": "n", "group": "handling", "direction": (0, 0, 1), "attach": {"part": "p"}, "magnitude_n": 1.5}

    def but(**kw):
        d = dict(base)
        d.update(kw)
        return tuple(sorted((k, v) for k, v in d.items() if v is not Ellipsis))

    from yapcad.assembly import load_case as L

    for g, f, st in itertools.product(sorted(L.VALID_GROUPS) + ["bogus"], sorted(L.VALID_FRAMES) + ["bogus"], sorted(L.VALID_STATUSES) + ["bogus"]):
        yield ("load", but(group=g, coordinate_frame=f, status=st), "bogus" not in (g, f, st))
    for n, gg, w in itertools.product((None, 0.0, 12.5), (None, 0.0, 3.0), (True, False)):
        yield ("load", but(magnitude_n=n, magnitude_g=gg, warn=w), n is not None or gg is not None)
    for d in ((0, 1), (0, 0, 1, 0), (), (1, 0, 0)):
        yield ("load", but(direction=d), len(d) == 3)
    for part, pos, ifc, clk, bi in itertools.product(("p", "_assembly"), ((0, 0, 0), (1.5, 2, -3)), (None, "i1"), (None, 0.0, 270.0), (None, 0, 5)):
        yield ("load", but(attach={"part": part, "position": list(pos), "interface": ifc, "clock_deg": clk, "bolt_index": bi}, description="d", source="s"), True)
    for pcd, n, acc in itertools.product((0.0, -1.0, 40.0), (0, -2, 1, 6), ((0, 0, 1), (0, 1), (0, 0, -1))):
        yield ("bolt", (("pcd_mm", pcd), ("n_bolts", n), ("bolt_spec", "m4"), ("access_direction", acc)), pcd > 0 and n > 0 and len(acc) == 3)


def run(ctx):
    depth = ctx.pick(3, 4)
    both = (OPS[0], OPS[1])
    hist = [((), o) for o in itertools.product(OPS, repeat=2)]
    hist += [(both, o) for k in range(1, depth + 1) for o in itertools.product(OPS[2:] if k > 2 else OPS, repeat=k)]
    ctx.explore(judge, [
        ("con", con_cases(ctx), 512),
        ("vec", itertools.product(range(len(DIRS)), repeat=2), 256),
        ("custom", itertools.product(("true", "false", "raise", "none"), ("error", "warning", "info")), 12),
        ("load", load_cases(), 64),
        ("hist", hist, 64),
    ])
    ctx.assumptions.append("errors within 1e-5 degrees or mm of a tolerance are not judged")
    ctx.assumptions.append("constraints of one assembly have distinct names")
    ctx.notes["history_depth"] = depth
