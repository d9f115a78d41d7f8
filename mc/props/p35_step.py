"""P35: STEP files carry exactly the mesh as shells."""
import io
import itertools
import math
import os
import re
import tempfile

from mc import mesh
from mc.core import Out, require
from mc.props.p30_stl import MOVES, SHEETS, SOLIDS, TINY, build, faces, pt

META = {
    "id": "P35",
    "title": "STEP files carry exactly the mesh, as closed shells for closed solids",
    "statement": "`write_step` writes a well-formed Part 21 file, in which every reference resolves to an entity of the right kind, whose faces are exactly those of the solid or surface: each lies in its plane with its normal outwards, its loop runs along edges that end at its corners, and coordinates keep their precision. The faces of a closed solid form closed shells, each edge used once in either direction, with shells inside of a solid as its voids and separate bodies apart; sheets are open shells; no face is in two shells. Names of any text, paths, streams, `write_step_analytic` and `write_step_with_meta` all give the same file.",
    "over": ["inputs"],
    "forall": "every builder in every placement and size, every arrangement of bodies and voids, every name and entry point of the grids",
    "why": "An edge that is not shared, a shell that is open or nested wrongly or a reference that is off by one shows only for particular placements, sizes and arrangements; the suite counts entities of two files.",
    "files": ["src/yapcad/io/step.py", "src/yapcad/mesh.py", "src/yapcad/geometry_utils.py"],
    "mech": [["export", "io/step.py:write_step"], ["voids", "io/step.py:_find_voids"], ["the mesh that is exported", "mesh.py:mesh_view"]],
    "technique": "explicit enumeration of solids, arrangements and names against the real writer, each file judged by an independent Part 21 parser and topology checker",
    "note": "solids that touch along an edge are left out; analytic export needs a kernel that is not installed, so that its fallback is what is checked",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# ---------------------------------------------------------------- Part 21
TOKEN = re.compile(r"""\s*(?:
    (?P<ref>\#\d+) | (?P<str>'(?:[^']|'')*') | (?P<real>[+-]?\d+\.\d*(?:E[+-]?\d+)?) | (?P<int>[+-]?\d+(?![\d.]))
  | (?P<enum>\.[A-Z][A-Z0-9_]*\.) | (?P<word>[A-Z][A-Z0-9_]*) | (?P<sym>[(),;=*$]))""", re.X)


def tokens(text):
    i, out = 0, []
    end = len(text.rstrip())
    while i < end:
        m = TOKEN.match(text, i)
        require(m is not None, "no token of Part 21 at %r" % text[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def decode(s):
    out, s = [], s[1:-1].replace("''", "'")
    i = 0
    while i < len(s):
        require(32 <= ord(s[i]) < 127, "the character %r in a string" % s[i])
        if s[i] != "\\":
            out.append(s[i])
            i += 1
        elif s[i:i + 2] == "\\\\":
            out.append("\\")
            i += 2
        else:
            m = re.match(r"\\X2\\((?:[0-9A-F]{4})+)\\X0\\|\\X4\\((?:[0-9A-F]{8})+)\\X0\\", s[i:])
            require(m is not None, "the string holds %r" % s[i:i + 12])
            h, w = (m.group(1), 4) if m.group(1) else (m.group(2), 8)
            out.append("".join(chr(int(h[j:j + w], 16)) for j in range(0, len(h), w)))
            i += m.end()
    return "".join(out)


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def want(self, s):
        require(self.peek() == s, "%r where %r is expected" % (self.peek(), s))
        self.i += 1

    def take(self, kind):
        require(self.i < len(self.t) and self.t[self.i][0] == kind, "%r where a %s is expected" % (self.peek(), kind))
        self.i += 1
        return self.t[self.i - 1][1]

    def value(self):
        kind, v = self.t[self.i]
        self.i += 1
        if kind == "ref":
            return ("ref", int(v[1:]))
        if kind == "str":
            return ("str", decode(v))
        if kind in ("real", "int"):
            return (kind, float(v) if kind == "real" else int(v))
        if kind == "enum":
            return ("enum", v)
        if kind == "word":
            return ("typed", v, self.args())
        if v in "*$":
            return ("sym", v)
        require(v == "(", "%r as a value" % v)
        self.i -= 1
        return ("list", self.args())

    def args(self):
        self.want("(")
        out = []
        while self.peek() != ")":
            if out:
                self.want(",")
            out.append(self.value())
        self.want(")")
        return out

    def record(self):
        return self.take("word"), self.args()


def parse(text):
    """-> header records, {id: [(name, args)]}; several names for a complex entity"""
    p = Parser(text)
    t = p.t
    # the keywords with dashes are not tokens of the data sections
    return p


def load(text):
    require(text.isascii(), "the file is not ASCII")
    m = re.fullmatch(r"ISO-10303-21;\s*HEADER;(.*?)ENDSEC;\s*DATA;(.*)ENDSEC;\s*END-ISO-10303-21;\s*", text, re.S)
    require(m is not None, "sections of the file")
    head, p = {}, Parser(m.group(1))
    while p.peek() is not None:
        name, args = p.record()
        p.want(";")
        require(name not in head, "two records %s" % name)
        head[name] = args
    require(list(head) == ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"], "header %r" % list(head))
    data, p = {}, Parser(m.group(2))
    while p.peek() is not None:
        n = int(p.take("ref")[1:])
        require(n not in data, "two entities #%d" % n)
        p.want("=")
        if p.peek() == "(":
            p.want("(")
            parts = []
            while p.peek() != ")":
                parts.append(p.record())
            p.want(")")
            names = [x[0] for x in parts]
            require(len(parts) > 1 and names == sorted(names), "complex entity %r" % names)
        else:
            parts = [p.record()]
        p.want(";")
        data[n] = parts
    return head, data


# what each attribute is: S text, R real, I integer, B boolean, *, $, #KIND, [..] list; ! marks free
KINDS = {
    "CARTESIAN_POINT": "S [RRR]", "DIRECTION": "S [RRR]", "VECTOR": "S #DIRECTION R", "LINE": "S #CARTESIAN_POINT #VECTOR",
    "VERTEX_POINT": "S #CARTESIAN_POINT", "EDGE_CURVE": "S #VERTEX_POINT #VERTEX_POINT #LINE B", "ORIENTED_EDGE": "S * * #EDGE_CURVE B",
    "EDGE_LOOP": "S [#ORIENTED_EDGE]", "FACE_OUTER_BOUND": "S #EDGE_LOOP B", "AXIS2_PLACEMENT_3D": "S #CARTESIAN_POINT #DIRECTION #DIRECTION",
    "PLANE": "S #AXIS2_PLACEMENT_3D", "ADVANCED_FACE": "S [#FACE_OUTER_BOUND] #PLANE B", "CLOSED_SHELL": "S [#ADVANCED_FACE]", "OPEN_SHELL": "S [#ADVANCED_FACE]",
    "ORIENTED_CLOSED_SHELL": "S * #CLOSED_SHELL B", "MANIFOLD_SOLID_BREP": "S #CLOSED_SHELL", "BREP_WITH_VOIDS": "S #CLOSED_SHELL [#ORIENTED_CLOSED_SHELL]",
    "SHELL_BASED_SURFACE_MODEL": "S [#OPEN_SHELL]", "APPLICATION_CONTEXT": "S", "PRODUCT_CONTEXT": "S #APPLICATION_CONTEXT S", "PRODUCT": "S S S [#PRODUCT_CONTEXT]",
    "PRODUCT_DEFINITION_FORMATION": "S S #PRODUCT", "PRODUCT_DEFINITION_CONTEXT": "S #APPLICATION_CONTEXT S",
    "PRODUCT_DEFINITION": "S S #PRODUCT_DEFINITION_FORMATION #PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_SHAPE": "S S #PRODUCT_DEFINITION",
    "UNCERTAINTY_MEASURE_WITH_UNIT": "T:LENGTH_MEASURE #LENGTH_UNIT S S",
    "ADVANCED_BREP_SHAPE_REPRESENTATION": "S [#MANIFOLD_SOLID_BREP|BREP_WITH_VOIDS] #REPRESENTATION_CONTEXT",
    "MANIFOLD_SURFACE_SHAPE_REPRESENTATION": "S [#SHELL_BASED_SURFACE_MODEL] #REPRESENTATION_CONTEXT",
    "SHAPE_REPRESENTATION": "S [#MANIFOLD_SOLID_BREP|BREP_WITH_VOIDS|SHELL_BASED_SURFACE_MODEL] #REPRESENTATION_CONTEXT",
    "SHAPE_DEFINITION_REPRESENTATION": "#PRODUCT_DEFINITION_SHAPE #ADVANCED_BREP_SHAPE_REPRESENTATION|MANIFOLD_SURFACE_SHAPE_REPRESENTATION|SHAPE_REPRESENTATION",
    # parts of complex entities
    "LENGTH_UNIT": "", "NAMED_UNIT": "*", "PLANE_ANGLE_UNIT": "", "SOLID_ANGLE_UNIT": "", "SI_UNIT": "E E", "REPRESENTATION_CONTEXT": "S S",
    "GEOMETRIC_REPRESENTATION_CONTEXT": "I", "GLOBAL_UNCERTAINTY_ASSIGNED_CONTEXT": "[#UNCERTAINTY_MEASURE_WITH_UNIT]",
    "GLOBAL_UNIT_ASSIGNED_CONTEXT": "[#NAMED_UNIT]", "MECHANICAL_CONTEXT": "S #APPLICATION_CONTEXT S",
    "APPLICATION_PROTOCOL_DEFINITION": "S S I #APPLICATION_CONTEXT", "PRODUCT_RELATED_PRODUCT_CATEGORY": "S ! [#PRODUCT]",
}


def fits(v, spec, data):
    if spec == "!":
        return True
    if spec == "S":
        return v[0] == "str"
    if spec == "R":
        return v[0] == "real"
    if spec == "I":
        return v[0] == "int"
    if spec == "B":
        return v[0] == "enum" and v[1] in (".T.", ".F.")
    if spec == "E":
        return v[0] == "enum" or v == ("sym", "$")
    if spec in "*$":
        return v == ("sym", spec)
    if spec.startswith("T:"):
        return v[0] == "typed" and v[1] == spec[2:] and len(v[2]) == 1 and v[2][0][0] == "real"
    if spec.startswith("["):
        if v[0] != "list" or not v[1]:
            return False
        if spec == "[RRR]":
            return len(v[1]) == 3 and all(fits(x, "R", data) for x in v[1])
        return all(fits(x, spec[1:-1], data) for x in v[1])
    return v[0] == "ref" and v[1] in data and any(n in spec[1:].split("|") for n, _ in data[v[1]])


def typed(data):
    for n, parts in data.items():
        for name, args in parts:
            require(name in KINDS, "entity %s" % name)
            spec = KINDS[name].split()
            require(len(spec) == len(args), "#%d: %d attributes of %s" % (n, len(args), name))
            for k, (a, s) in enumerate(zip(args, spec)):
                require(fits(a, s, data), "#%d: attribute %d of %s is %r, which is no %s" % (n, k, name, a, s))


class File:
    def __init__(self, text):
        self.head, self.data = load(text)
        typed(self.data)
        self.by = {}
        for n, parts in self.data.items():
            for name, args in parts:
                self.by.setdefault(name, []).append(n)

    def a(self, n, k):
        v = self.data[n][0][1][k]
        return [x[1] for x in v[1]] if v[0] == "list" else v[1]

    def xyz(self, n):
        return tuple(self.a(n, 1))

    def vertex(self, n):
        return self.xyz(self.a(n, 1))


def face(f, n, tol):
    """-> the corners of the face and the edges it uses, as (edge, forward)"""
    (bound,) = f.a(n, 1)
    require(f.a(bound, 2) == ".T." and f.a(n, 3) == ".T.", "a face or bound against its surface")
    corners, used = [], []
    for oe in f.a(f.a(bound, 1), 1):
        ec, fwd = f.a(oe, 3), f.a(oe, 4) == ".T."
        require(f.a(ec, 4) == ".T.", "an edge against its curve")
        ends = f.a(ec, 1), f.a(ec, 2)
        require(ends[0] != ends[1], "an edge from a vertex to itself")
        corners.append(ends if fwd else ends[::-1])
        used.append((ec, fwd))
        # the line runs through both ends, onwards
        line = f.a(ec, 3)
        at, vec = f.xyz(f.a(line, 1)), f.a(line, 2)
        d = f.xyz(f.a(vec, 1))
        require(abs(mesh.dot(d, d) - 1) < 1e-9 and f.a(vec, 2) > 0, "the vector of a line: %r, %r" % (d, f.a(vec, 2)))
        p, q = f.vertex(ends[0]), f.vertex(ends[1])
        for v in (p, q):
            w = mesh.sub(v, at)
            c = mesh.cross(w, d)
            require(math.sqrt(mesh.dot(c, c)) < tol, "the line of an edge passes its vertex by %g" % math.sqrt(mesh.dot(c, c)))
        require(mesh.dot(mesh.sub(q, p), d) > 0, "the line of an edge runs backwards")
    for i, (a, b) in enumerate(corners):
        require(corners[i - 1][1] == a, "the loop of a face is not connected")
    t = tuple(f.vertex(a) for a, _ in corners)
    ax = f.a(f.a(n, 2), 1)
    at, z, x = f.xyz(f.a(ax, 1)), f.xyz(f.a(ax, 2)), f.xyz(f.a(ax, 3))
    require(abs(mesh.dot(z, z) - 1) < 1e-9 and abs(mesh.dot(x, x) - 1) < 1e-9 and abs(mesh.dot(x, z)) < 1e-6, "axes of a plane %r %r" % (z, x))
    for v in t:
        require(abs(mesh.dot(mesh.sub(v, at), z)) < tol, "a corner is %g off the plane of its face" % mesh.dot(mesh.sub(v, at), z))
    m = mesh.nrm(t)
    require(mesh.dot(m, z) > .99 * math.sqrt(mesh.dot(m, m)), "the normal of a face is not that of its corners")
    return t, used, [a for a, _ in corners]


def volume(T):
    o = T[0][0]
    return sum(mesh.dot(mesh.sub(a, o), mesh.cross(mesh.sub(b, o), mesh.sub(c, o))) for a, b, c in T) / 6


def shell(f, n, tol, closed, seen):
    T, use, verts = [], {}, {}
    for k in f.a(n, 1):
        require(k not in seen, "a face is in two shells")
        seen.add(k)
        t, used, vs = face(f, k, tol)
        T.append(t)
        for e, fwd in used:
            use.setdefault(e, []).append(fwd)
        for v, p in zip(vs, t):
            verts[v] = p
    require(len(set(verts.values())) == len(verts), "two vertices at one place")
    ends = {}
    for e, fs in use.items():
        require(len(fs) <= 2 and fs.count(True) <= 1 and fs.count(False) <= 1, "an edge is used as %r" % fs)
        if closed:
            require(len(fs) == 2, "an edge of a closed shell is used once")
        k = frozenset((f.a(e, 1), f.a(e, 2)))
        require(k not in ends, "two edges between the same vertices")
        ends[k] = e
    return T


def content(f, tol):
    """-> [(kind, name, outer triangles, [void triangles])]"""
    (sdr,) = f.by["SHAPE_DEFINITION_REPRESENTATION"]
    rep = f.a(sdr, 1)
    out, seen = [], set()
    for item in f.a(rep, 1):
        kind = f.data[item][0][0]
        name = f.a(item, 0)
        if kind == "SHELL_BASED_SURFACE_MODEL":
            for s in f.a(item, 1):
                out.append(("sheet", name, shell(f, s, tol, False, seen), []))
            continue
        outer = shell(f, f.a(item, 1), tol, True, seen)
        require(volume(outer) > 0, "the shell of a body faces inwards")
        voids = []
        if kind == "BREP_WITH_VOIDS":
            for o in f.a(item, 2):
                T = shell(f, f.a(o, 2), tol, True, seen)
                v = volume(T) if f.a(o, 3) == ".T." else -volume(T)
                require(v < 0, "the shell of a void faces into the material")
                voids.append(T)
        out.append(("body", name, outer, voids))
    require(seen == set(f.by["ADVANCED_FACE"]), "%d faces are in no shell" % (len(f.by["ADVANCED_FACE"]) - len(seen)))
    return out


def canon(t):
    i = t.index(min(t))
    return t[i:] + t[:i]


def same(got, want, tol):
    """the same triangles in the same sense, each once"""
    require(len(got) == len(want), "%d faces in the file for %d of the mesh" % (len(got), len(want)))
    cell = 64 * tol
    grid = {}
    for t in got:
        c = tuple(sum(p[k] for p in t) / 3 for k in range(3))
        grid.setdefault(tuple(math.floor(x / cell) for x in c), []).append([t, False])
    for w in want:
        c = tuple(sum(p[k] for p in w) / 3 for k in range(3))
        hit = None
        base = tuple(math.floor(x / cell) for x in c)
        for d in itertools.product((0, -1, 1), repeat=3):
            for g in grid.get(tuple(a + b for a, b in zip(base, d)), ()):
                if not g[1] and any(all(abs(a - b) <= tol for p, q in zip(g[0][i:] + g[0][:i], w) for a, b in zip(p, q)) for i in range(3)):
                    hit = g
                    break
            if hit:
                break
        require(hit is not None, "the face %r of the mesh is not in the file" % (w,))
        hit[1] = True


def write(obj, how="stream", **kw):
    from yapcad.io import step
    if how == "stream":
        s = io.StringIO()
        step.write_step(obj, s, **kw)
        return s.getvalue()
    with tempfile.TemporaryDirectory(prefix="p35") as t:
        path = os.path.join(t, "a.step")
        if how == "over":
            with open(path, "w") as fh:
                fh.write("x" * 1000000)
            step.write_step(obj, path, **kw)
        elif how == "path":
            step.write_step(obj, path, **kw)
        elif how == "analytic":
            require(step.write_step_analytic(obj, path, **kw) is False, "analytic export without a kernel")
        else:
            step.write_step_with_meta(obj, path, emit_sidecar=how == "meta", **kw)
        with open(path, encoding="utf-8") as fh:
            return fh.read()


def whole(obj, text, name, shapes, tol=2e-8):
    f = File(text)
    got = content(f, max(tol, 1e-7))
    same([t for _, _, o, v in got for T in [o] + v for t in T], faces(obj), tol)
    require(f.head["FILE_NAME"][0] == ("str", name), "file name %r" % (f.head["FILE_NAME"][0],))
    (prod,) = f.by["PRODUCT"]
    require(f.a(prod, 1) == name, "product %r" % f.a(prod, 1))
    for i, (_, n, _, _) in enumerate(got):
        require(n == name or len(got) > 1 and n.startswith(name), "item %r" % n)
    require(len({n for _, n, _, _ in got}) == len(got), "items of the same name")
    require(sorted((k, len(v)) for k, _, _, v in got) == sorted(shapes), "items %r, for %r" % (sorted((k, len(v)) for k, _, _, v in got), sorted(shapes)))
    rep = {n for n in ("ADVANCED_BREP_SHAPE_REPRESENTATION", "MANIFOLD_SURFACE_SHAPE_REPRESENTATION", "SHAPE_REPRESENTATION") if n in f.by}
    kinds = {k for k, _ in shapes}
    require(rep == {"SHAPE_REPRESENTATION" if len(kinds) > 1 else "ADVANCED_BREP_SHAPE_REPRESENTATION" if "body" in kinds else "MANIFOLD_SURFACE_SHAPE_REPRESENTATION"}, "%r for %r" % (rep, kinds))
    si = [a for n in f.by["LENGTH_UNIT"] for nm, a in f.data[n] if nm == "SI_UNIT"]
    require(si == [[("enum", ".MILLI."), ("enum", ".METRE.")]], "unit of length %r" % si)
    return got


SHAPE = {"shell": [("body", 1)], "two": [("body", 0)] * 2, "cavity": [("body", 1)]}


def judge_solid(case):
    name, k, move, how = case
    obj = build(name, k, move)
    keep = repr(obj)
    text = write(obj, how)
    require(repr(obj) == keep, "writing changes the object")
    got = whole(obj, text, "yapCAD", [("sheet", 0)] if name in SHEETS else SHAPE.get(name, [("body", 0)]))
    require(write(obj) == text, "the file depends on where it goes")
    return Out("solid %d" % len(got), steps=sum(len(o) for _, _, o, _ in got))


NAMES = ("", "O'Neil", "''", "a\\b", "\\X2\\", "Geh\u00e4use", "\u4e2d\u6587", "\U0001f600", "tab\tnew\nline", "part_1", "x" * 300, "#1=X();", "/*no*/", "ENDSEC;")


def judge_name(case):
    what, name, how = case
    obj = build(what, 1, "stay")
    text = write(obj, how, name=name)
    whole(obj, text, name, [("sheet", 0)] if what in SHEETS else SHAPE.get(what, [("body", 0)]))
    return Out("name")


# arrangements of boxes, each (size, place, inside out), and what they make
BOXES = [(12, (0, 0, 0), 1), (8, (0, 0, 0), -1), (4, (0, 0, 0), 1), (2, (0, 0, 0), -1), (1, (0, 0, 0), 1),
         (2, (20, 0, 0), 1), (1, (20, 0, 0), -1), (1, (4.9, 4.9, 4.9), -1), (30, (0, 40, 0), 1), (1, (-5, -5, 5), -1)]


def inside(b, a):
    return b[0] < a[0] and all(abs(p - q) < (a[0] - b[0]) / 2 for p, q in zip(a[1], b[1]))


def judge_nest(case):
    """every choice of the boxes that alternates from outside to inside, in the given order"""
    picks, order, move, joined = case
    from yapcad import geom3d as g
    from yapcad import geom3d_util as u
    from mc.props.p30_stl import moves
    bs = [BOXES[i] for i in picks]
    out = []
    for b in bs:
        par = [a for a in bs if inside(b, a)]
        sign = sum(1 for _ in par) % 2 == 0
        if sign != (b[2] > 0):
            return None
        if not sign:
            out.append(min(par, key=lambda a: a[0]))
    for i, b in enumerate(bs):
        if any(a is not b and not inside(b, a) and not inside(a, b) and all(abs(p - q) <= (a[0] + b[0]) / 2 for p, q in zip(a[1], b[1])) for a in bs):
            return None
    want = [("body", out.count(b)) for b in bs if b[2] > 0]
    surfs = []
    for b in bs:
        s = u.prism(b[0], b[0], b[0], pt(*b[1]))[1]
        if b[2] < 0:
            s = [g.reversesurface(x) for x in s]
        surfs.append(s)
    surfs = surfs[::-1] if order else surfs
    if joined:
        # the faces of the bodies in turn
        surfs = [[s[i] for s in surfs] for i in range(6)]
    obj = moves()[move][0](g.solid([x for s in surfs for x in s]))
    got = whole(obj, write(obj), "yapCAD", want)
    # each void lies in its body
    for _, _, o, vs in got:
        lo = [min(p[k] for t in o for p in t) for k in range(3)]
        hi = [max(p[k] for t in o for p in t) for k in range(3)]
        for v in vs:
            require(all(lo[k] < p[k] < hi[k] for t in v for p in t for k in range(3)), "a void lies outside of its body")
            total = volume(o) + sum(map(volume, vs))
            require(total > 0, "voids larger than the body")
    vols = sorted(round(volume(o) + sum(map(volume, vs)), 6) for _, _, o, vs in got)
    ref = sorted(round(b[0] ** 3 - sum(a[0] ** 3 for a, c in zip([x for x in bs if x[2] < 0], out) if c is b), 6) for b in bs if b[2] > 0)
    require(vols == ref, "volumes %r for %r" % (vols, ref))
    return Out("nest %d" % len(bs))


def judge_open(case):
    """a box with some of its sides"""
    mask, move, extra = case
    from yapcad import geom3d as g
    from yapcad import geom3d_util as u
    from mc.props.p30_stl import moves
    sides = [s for i, s in enumerate(u.prism(2, 3, 4)[1]) if mask >> i & 1]
    if not sides:
        return None
    # sides that share an edge are one sheet
    left, n = list(range(len(sides))), 0
    pts = [{tuple(round(c, 6) for c in p[:3]) for p in s[1]} for s in sides]
    while left:
        n += 1
        todo = [left.pop()]
        while todo:
            i = todo.pop()
            for j in [j for j in left if len(pts[i] & pts[j]) >= 2]:
                left.remove(j)
                todo.append(j)
    want = [("body", 0)] if mask == 63 else [("sheet", 0)] * n
    if extra:
        sides = sides + g.translatesolid(u.prism(1, 1, 1), pt(9, 0, 0))[1]
        want = want + [("body", 0)]
    obj = moves()[move][0](g.solid(sides))
    whole(obj, write(obj), "yapCAD", want)
    return Out("open %d" % n)


def run(ctx):
    S = []
    for name in list(SOLIDS) + list(SHEETS):
        for k in (.002, .03, 1, 7.3, 250):
            for move in MOVES:
                if k < .03 and name not in TINY or move == "away" and k < .03:
                    continue
                for how in ("path", "over", "analytic", "meta", "nometa") if k == 1 and move == "stay" else ("stream",):
                    S.append((name, k, move, how))
    N = [(w, n, h) for w in ("prism", "two", "cavity", "sheet") for n in NAMES for h in ("stream", "path", "analytic", "meta")]
    top = ctx.pick(4, 7)
    nest = [(p, o, m, j) for r in range(1, top + 1) for p in itertools.combinations(range(len(BOXES)), r) for o in (0, 1) for m in ("stay", "turn") for j in (0, 1)]
    opened = list(itertools.product(range(1, 64), ("stay", "turn"), (0, 1)))
    ctx.explore(judge, [("solid", S, 2), ("name", N, 10), ("nest", nest, 60), ("open", opened, 20)])
