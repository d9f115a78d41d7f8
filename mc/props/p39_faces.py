"""P39: face names reach exactly the faces their selectors describe."""
import itertools
import math

from mc import mesh
from mc.core import Out, h, require as _require

META = {
    "id": "P39",
    "title": "Face names reach exactly the faces their selectors describe",
    "statement": "`FaceNamer` measures every face of a solid (area, centroid, mean unit normal) wherever the solid is, and a selector matches exactly the faces within its angle, area range, extreme or coordinate bounds, with `and`, `or` and nesting combining them as logic does. Naming gives each selected face its name (the last one given), reports per name exactly the selected indices, and the metadata lists the same. The convenience selectors mean the direction and extreme that their name says.",
    "over": ["inputs", "histories"],
    "forall": "every solid and placement of the grid with every selector; every set of up to 3 (4) grid faces with every selector and combination to depth 2; every history of namings to length 3",
    "why": "A boundary condition lands on the wrong face only for particular orientations, ties, tolerances and overlapping selections; the suite calls single selectors on hand-made faces.",
    "files": ["src/yapcad/package/analysis/face_naming.py"],
    "mech": [["measuring", "package/analysis/face_naming.py:FaceNamer"], ["selection", "package/analysis/face_naming.py:ByNormalSelector"], ["combination", "package/analysis/face_naming.py:CombinedSelector"]],
    "technique": "explicit enumeration of solids, face sets, selector trees and naming histories against the real namer, judged by an independent predicate",
    "note": "angles, areas and coordinates closer than 1e-9 to a limit, other than exact ones, are left out",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# ---- selectors: ("normal", dir, tol, rev) ("area", min, max, ext) ("pos", axis, ext, above, below, tol) ("and"/"or", ...) or a name

NAMED = {
    "top_faces": (0, 0, 1), "bottom_faces": (0, 0, -1), "front_faces": (0, 1, 0), "back_faces": (0, -1, 0),
    "left_faces": (-1, 0, 0), "right_faces": (1, 0, 0),
}


def make(sel):
    from yapcad.package.analysis import face_naming as fn
    k = sel[0]
    if k == "fn":
        return getattr(fn, sel[1])(*sel[2:])
    if k == "normal":
        return fn.ByNormalSelector(sel[1], tolerance_deg=sel[2], allow_reversed=sel[3]) if sel[2] is not None else fn.ByNormalSelector(sel[1])
    if k == "area":
        return fn.ByAreaSelector(min_area=sel[1], max_area=sel[2], largest=sel[3] == "max", smallest=sel[3] == "min")
    if k == "pos":
        kw = {} if sel[5] is None else {"tolerance": sel[5]}
        return fn.ByPositionSelector(axis=sel[1], at_min=sel[2] == "min", at_max=sel[2] == "max", above=sel[3], below=sel[4], **kw)
    mode = k
    return fn.CombinedSelector([make(s) for s in sel[1]], mode=mode) if mode else fn.CombinedSelector([make(s) for s in sel[1]])


def angle(a, b):
    ma, mb = math.dist(a, (0, 0, 0)), math.dist(b, (0, 0, 0))
    if ma < 1e-12 or mb < 1e-12:
        return math.pi / 2
    a, b = [x / ma for x in a], [x / mb for x in b]
    c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.atan2(math.dist(c, (0, 0, 0)), sum(x * y for x, y in zip(a, b)))


class Close(Exception):
    """The case lies on a limit: either answer is right."""


EXACT = [True]           # whether the faces' numbers are exactly the reference's


def le(a, b, slack=1e-9):
    if abs(a - b) < slack * max(1.0, abs(a), abs(b)) and not (EXACT[0] and a == b):
        raise Close
    return a <= b


def want(sel, f, faces):
    """Whether the selector describes face f = (centroid, normal, area) among the faces."""
    c, n, area = f
    k = sel[0]
    if k == "fn":
        name, args = sel[1], sel[2:]
        if name in NAMED:
            return want(("normal", NAMED[name], args[0] if args else 5.0, False), f, faces)
        if name in ("largest_face", "smallest_face"):
            return want(("area", None, None, "max" if name[0] == "l" else "min"), f, faces)
        return want(("pos", "z", "min" if name.endswith("min") else "max", None, None, args[0] if args else None), f, faces)
    if k == "normal":
        d = sel[1] if math.dist(sel[1], (0, 0, 0)) > 1e-10 else (0, 0, 1)
        a = angle(d, n)
        if sel[3]:
            a = min(a, math.pi - a)
        t = math.radians(5.0 if sel[2] is None else sel[2])
        if abs(a - t) < 1e-7:
            raise Close
        return a < t
    if k == "area":
        ok = (sel[1] is None or le(sel[1], area)) and (sel[2] is None or le(area, sel[2]))
        if sel[3]:
            e = (max if sel[3] == "max" else min)(x[2] for x in faces)
            r = abs(area - e) / max(area, e) if area != e else 0.0
            if 1e-8 < r < 1e-5:
                raise Close
            ok = ok and r < 1e-6
        return ok
    if k == "pos":
        i = "xyz".index(sel[1].lower())
        x = c[i]
        ok = (sel[3] is None or not le(x, sel[3])) and (sel[4] is None or not le(sel[4], x))
        if sel[2]:
            e = (max if sel[2] == "max" else min)(g[0][i] for g in faces)
            t = 1e-6 if sel[5] is None else sel[5]
            if abs(abs(x - e) - t) < 1e-9:
                raise Close
            ok = ok and abs(x - e) < t
        return ok
    r = []
    close = False
    for s in sel[1]:
        try:
            r.append(want(s, f, faces))
        except Close:
            close = True
    known = (any(r) if k == "or" else not all(r))
    if close and not known:
        raise Close
    return any(r) if k == "or" else all(r)


# ---- faces of grid solids --------------------------------------------------

def rot(p, axes):
    return tuple(sum(axes[j][i] * p[j] for j in range(3)) for i in range(3))


ROTS = [r for r in (
    tuple(tuple(s[j] if perm[j] == i else 0 for i in range(3)) for j in range(3))
    for perm in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3))
    if (lambda m: m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))(r) == 1]
T = math.radians(20)
TILT = ((math.cos(T), 0, -math.sin(T)), (0, 1, 0), (math.sin(T), 0, math.cos(T)))


def build(shape):
    from yapcad import geom3d_util as u
    from yapcad.geom import point
    from yapcad.geom3d import poly2surfaceXY
    if shape == "box":
        return u.prism(2, 3, 5)
    if shape == "cube":
        return u.prism(4, 4, 4)
    if shape == "cylinder":
        return u.conic(2, 2, 3)
    if shape == "cone":
        return u.conic(2, 0.5, 3)
    if shape == "sphere":
        return u.sphere(2)
    loop = {"ell": [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (0, 3)], "wedge": [(0, 0), (3, 0), (0, 1)]}[shape]
    loop = [point(*p) for p in loop + loop[:1]]
    return u.extrude(poly2surfaceXY(loop)[0], 2)


def placed(shape, r, off, k):
    from yapcad.geom import point, vect
    axes = ROTS[r] if r < len(ROTS) else TILT
    s = build(shape)
    for surf in s[1]:
        surf[1] = [point(*(k * x + o for x, o in zip(rot(p[:3], axes), off))) for p in surf[1]]
        surf[2] = [vect(*rot(p[:3], axes), 0) for p in surf[2]]
    return s


def measured(surf):
    """(centroid, mean normal, area) of a surface by its triangles, as sums over tetrahedra-free formulas."""
    tris = [[surf[1][i][:3] for i in f] for f in surf[3]]
    area = sum(map(mesh.area, tris))
    cen = [sum(mesh.area(t) * sum(p[i] for p in t) / 3 for t in tris) / area for i in range(3)]
    n = [sum(mesh.nrm(t)[i] for t in tris) / 2 for i in range(3)]
    m = math.dist(n, (0, 0, 0))
    return tuple(cen), tuple(x / m for x in n) if m > 1e-6 * area else (0.0, 0.0, 0.0), area


SELECTORS = [("fn", n) for n in NAMED] + [("fn", n) for n in ("largest_face", "smallest_face", "faces_at_z_min", "faces_at_z_max")]
SELECTORS += [("fn", "top_faces", 25.0), ("fn", "left_faces", 0.5), ("fn", "faces_at_z_max", 2.0), ("fn", "faces_at_z_min", 0.25)]
SELECTORS += [("normal", d, t, rev) for d in ((0, 0, 1), (0, -3, 0), (1, 1, 0), (0, 0, 0)) for t in (None, 1.0, 50.0, 95.0, 180.0) for rev in (False, True) if not (t is None and rev)]
SELECTORS += [("area", lo, hi, e) for lo, hi in ((None, None), (6.0, None), (None, 10.0), (6.5, 14.0)) for e in (None, "max", "min")]
SELECTORS += [("pos", ax, e, a, b, None) for ax in "xyzXZ" for e, a, b in (("min", None, None), ("max", None, None), (None, 0.1, None), (None, None, 0.1), (None, -1.0, 1.0), ("max", 0.1, None), ("min", None, -0.1))]
LEAVES = [("fn", "top_faces"), ("fn", "right_faces"), ("fn", "largest_face"), ("area", 6.5, None, None), ("pos", "x", "max", None, None, None), ("pos", "y", None, None, 0.1, None)]
COMBINED = [(m, p) for m in ("and", "or", "AND", "Or", "") for n in (0, 1, 2) for p in itertools.product(LEAVES, repeat=n) if n < 2 or m in ("and", "or")]
COMBINED += [(m, (a, (k, (b, c)))) for m, k in (("and", "or"), ("or", "and")) for a, b, c in itertools.product(LEAVES[:5:2] + LEAVES[1:4:2], repeat=3)]


def norm_sel(sel):
    """The mode as the reference reads it: any case, `and` by default."""
    if sel[0].lower() in ("and", "or", ""):
        return (sel[0].lower() or "and", tuple(map(norm_sel, sel[1])))
    return sel


def judge_solid(case):
    shape, r, off, k = case
    from yapcad.package.analysis.face_naming import FaceNamer
    s = placed(shape, r, off, k)
    keep = repr(s)
    namer = FaceNamer(s)
    ref = [measured(x) for x in s[1]]
    require(len(namer.faces) == len(ref), "a {} has {} faces, the namer {}", shape, len(ref), len(namer.faces))
    for i, (f, (c, n, a)) in enumerate(zip(namer.faces, ref)):
        require(f.index == i and f.name is None and f.tags == [], "face {} is index {}, {!r}", i, f.index, f.name)
        require(abs(f.area - a) < 1e-6 * max(1, a), "face {} of the {} has area {}, not {}", i, shape, f.area, a)
        require(math.dist(f.centroid, c) < 1e-6 * max(1, k), "face {} of the {} is centred at {}, not {}", i, shape, f.centroid, c)
        require(math.dist(f.normal, n) < 1e-6, "face {} of the {} faces {}, not {}", i, shape, f.normal, n)
    steps = 0
    EXACT[0] = False
    for sel in SELECTORS:
        namer = FaceNamer(s)
        got = namer.name_faces({"x": make(sel)})
        require(list(got) == ["x"], "naming x reports {}", list(got))
        for i, f in enumerate(ref):
            try:
                w = want(sel, f, ref)
            except Close:
                continue
            require((i in got["x"]) == w, "{} {} face {} ({}, {}, {:.3f}) of the {} at {} x{}", sel, "takes" if not w else "leaves out", i, *f, shape, off, k)
            require((namer.faces[i].name == "x") == w, "the selected face {} is called {!r}", i, namer.faces[i].name)
        require(got["x"] == sorted(set(got["x"])), "the indices are {}", got["x"])
        require(namer.get_named_faces() == ({"x": got["x"]} if got["x"] else {}), "the named faces are {}", namer.get_named_faces())
        steps += 1
    require(repr(s) == keep, "naming changed the solid")
    return Out("solid " + shape, [h((case, s)) for s in SELECTORS], steps)


def judge_nosolid(case):
    (what,) = case
    from yapcad.package.analysis.face_naming import FaceNamer
    thing = {"none": None, "surface": ["surface", [], [], [], [], []], "text": "x", "dict": {}}[what]
    n = FaceNamer(thing)
    require(n.faces == [] and n.name_faces({}) == {} and n.to_metadata() == {"face_names": {}, "faces": []}, "{} has faces", what)
    return Out("no solid", [h(what)], 1)


GRID = [((0.0, 0.0, 0.0), (0, 0, 1), 6.0), ((0.0, 0.0, 2.0), (0, 0, 1), 14.0), ((2.0, 0.0, 2.0), (1, 0, 0), 6.0), ((-1.0, 0.1, 0.0), (0, 0, -1), 10.0),
        ((2.0, -1.0, 1e-7), (0, 1, 0), 14.0 * (1 + 1e-9)), ((0.0, 1.0, -2.0), (0, 0, 0), 0.0), ((0.1, -1.0, -2.0), (math.sqrt(.5), math.sqrt(.5), 0), 6.5)]


def infos(idx):
    from yapcad.package.analysis.face_naming import FaceInfo
    return [FaceInfo(i, *GRID[g]) for i, g in enumerate(idx)]


class Known:
    """A namer whose faces are given."""
    def __new__(cls, faces):
        from yapcad.package.analysis.face_naming import FaceNamer
        n = FaceNamer(None)
        n._faces = faces
        return n


def judge_faces(case):
    idx, group = case
    EXACT[0] = True
    faces = [GRID[g] for g in idx]
    sels = SELECTORS if group == "single" else COMBINED[group::8]
    for sel in sels:
        n = Known(infos(idx))
        s = make(sel)
        got = n.name_faces({"n": s})["n"]
        for i, f in enumerate(faces):
            try:
                w = want(norm_sel(sel), f, faces)
            except Close:
                continue
            require((i in got) == w, "{} {} face {} of {}", sel, "takes" if not w else "leaves out", f, faces)
    return Out("faces", [h((idx, s)) for s in sels], len(sels))


HIST = [("top", ("fn", "top_faces")), ("big", ("fn", "largest_face")), ("top", ("pos", "x", "max", None, None, None)), ("sel", "list"), ("all", ("or", (("fn", "top_faces"), ("normal", (0, 0, -1), 90.5, False)))), ("none", ("area", 1e6, None, None))]


def judge_hist(case):
    """Several namings, in one call or one after another: the last name given wins."""
    steps, together, idx = case
    EXACT[0] = True
    faces = [GRID[g] for g in idx]
    n = Known(infos(idx))
    model = [None] * len(faces)
    calls = []
    if together:
        d = {}
        for s in steps:
            d[HIST[s][0]] = HIST[s][1]
        calls = [d]
    else:
        calls = [dict([HIST[s]]) for s in steps]
    for d in calls:
        got = n.name_faces({k: [0, len(faces) - 1, 99] if v == "list" else make(v) for k, v in d.items()})
        require(list(got) == list(d), "the result names {}", list(got))
        for k, v in d.items():
            if v == "list":
                chosen = sorted({0, len(faces) - 1})
                require(got[k] == [0, len(faces) - 1, 99], "explicit indices are reported as {}", got[k])
            else:
                chosen = [i for i, f in enumerate(faces) if want(v, f, faces)]
                require(got[k] == chosen, "{} selects {}, not {}", k, got[k], chosen)
            for i in chosen:
                model[i] = k
        named = {}
        for i, m in enumerate(model):
            if m:
                named.setdefault(m, []).append(i)
        require([f.name for f in n.faces] == model, "after {} the faces are called {}", d, [f.name for f in n.faces])
        require(n.get_named_faces() == named, "the named faces are {}, not {}", n.get_named_faces(), named)
        meta = n.to_metadata()
        require(meta["face_names"] == named, "the metadata names {}", meta["face_names"])
        require(meta["faces"] == [{"index": i, "centroid": f[0], "normal": f[1], "area": f[2], "name": m, "tags": []} for i, (f, m) in enumerate(zip(faces, model))], "the metadata of the faces is {}", meta["faces"])
    return Out("history", [h((steps[:i + 1], together, idx)) for i in range(len(steps))], len(steps))


def run(ctx):
    shapes = ["box", "cube", "cylinder", "cone", "sphere", "ell", "wedge"]
    solids = [(s, r, off, k) for s in shapes for r in range(len(ROTS) + 1) for off in ((0.0, 0.0, 0.0), (3.0, -7.0, 11.0)) for k in ctx.pick((1.0,), (0.1, 1.0, 25.0))]
    sets = [x for n in range(1, ctx.pick(3, 4) + 1) for x in itertools.product(range(len(GRID)), repeat=n)]
    faces = [(x, "single") for x in sets] + [(x, g) for x in sets if len(x) < 4 and x == tuple(sorted(x)) for g in range(8)]
    hist = [(st, tog, idx) for n in (1, 2, 3) for st in itertools.product(range(len(HIST)), repeat=n) for tog in (False, True) for idx in ((0, 1, 2, 3), (2,), (3, 5, 1, 6, 0), (4, 2))]
    ctx.explore(judge, [("solid", solids), ("faces", faces), ("hist", hist), ("nosolid", [(x,) for x in ("none", "surface", "text", "dict")])], batch=16)
