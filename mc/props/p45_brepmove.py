"""P45: native B-rep graphs keep their meaning when stored and moved with a solid."""
import itertools
import json
import math

from mc import topo
from mc.core import Out, h, require as _require

META = {
    "id": "P45",
    "title": "Stored B-rep graphs come back whole and move with their solid",
    "statement": "A native B-rep graph attached to a solid comes back from it, also through JSON, with every entity, adjacency, parameter, sense, tolerance, tag and shell type it had. After any sequence of translations, rotations, mirrorings and uniform scalings of the solid its vertices, edge curves and surface patches are the images of the original ones, their normals still point to the same side, and its answers about containment are those at the original place; the original solid is left alone. A solid scaled unevenly no longer carries a graph that does not describe it.",
    "over": ["inputs", "histories"],
    "forall": "every shape of the library with every combination of senses, tolerances, tags, shell types and store cycles; every patch of the library under every sequence of moves to depth 2 (3 when thorough); every edge kind under the same",
    "why": "A partial patch turned by one particular rotation, or an edge mirrored after a store, is wrong while whole cylinders and boxes look right; the suite moves a full box and a full cylinder once.",
    "files": ["src/yapcad/native_brep.py", "src/yapcad/geom3d.py"],
    "mech": [["storage", "native_brep.py:serialize_topology_graph"], ["reading", "native_brep.py:deserialize_topology_graph"], ["moving", "native_brep.py:transform_topology_graph"], ["scaling", "native_brep.py:scale_native_brep"], ["edges", "native_brep.py:evaluate_edge_curve"]],
    "technique": "explicit enumeration of stored graphs and of all sequences of moves to a depth, on the real solids, against images of points sampled from the original surfaces and curves",
    "note": "sphere patches that are not whole are only translated and scaled, and arcs only moved within their plane: the graph has no way to write the others down",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# ---------------------------------------------------------------- moves

def unit(v):
    m = math.sqrt(sum(x * x for x in v))
    return tuple(x / m for x in v)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a[:3], b[:3]))


MIRROR = {"xy": 2, "xz": 1, "yz": 0}


def image(move, p):
    k = move[0]
    p = tuple(p[:3])
    if k == "t":
        return tuple(a + b for a, b in zip(p, move[1]))
    if k == "m":
        return tuple(-x if i == MIRROR[move[1]] else x for i, x in enumerate(p))
    if k == "s":
        return tuple(c + (x - c) * move[1] for x, c in zip(p, move[2]))
    _, ang, cen, axis = move
    t, n = math.radians(ang), unit(axis)
    q = tuple(a - b for a, b in zip(p, cen))
    c, s, x, d = math.cos(t), math.sin(t), cross(n, q), dot(n, q)
    return tuple(q[i] * c + x[i] * s + n[i] * d * (1 - c) + cen[i] for i in range(3))


def images(moves, p):
    for m in moves:
        p = image(m, p)
    return p


def turned(moves, v):
    o = images(moves, (0, 0, 0))
    return unit(tuple(a - b for a, b in zip(images(moves, v), o)))


def flips(moves):
    return sum(m[0] == "m" for m in moves) % 2 == 1


def size(moves):
    f = 1.0
    for m in moves:
        if m[0] == "s":
            f *= m[1]
    return f


def moved(solid, moves):
    from yapcad import geom3d as g3
    from yapcad.geom import point
    for m in moves:
        if m[0] == "t":
            solid = g3.translatesolid(solid, point(*m[1]))
        elif m[0] == "m":
            solid = g3.mirrorsolid(solid, m[1])
        elif m[0] == "s":
            solid = g3.scalesolid(solid, m[1], cent=point(*m[2]))
        else:
            solid = g3.rotatesolid(solid, m[1], cent=point(*m[2]), axis=point(*m[3]))
    return solid


MOVES = (
    ("t", (1, -2, 0.5)),
    ("r", 30, (0, 0, 0), (0, 0, 1)),
    ("r", 90, (1, 0, 0), (1, 0, 0)),
    ("r", 115, (0, 1, 2), (1, 2, -1)),
    ("m", "xy"), ("m", "xz"), ("m", "yz"),
    ("s", 2.5, (0, 0, 0)), ("s", 0.5, (1, -1, 2)),
)
PLANAR = (
    ("t", (1, -2, 0)),
    ("r", 30, (0, 0, 0), (0, 0, 1)), ("r", 200, (1, 1, 0), (0, 0, 1)),
    ("m", "xz"), ("m", "yz"),
    ("s", 2.5, (0, 0, 0)), ("s", 0.5, (1, -1, 0)),
)
STILL = (("t", (1, -2, 0.5)), ("t", (0, 0, -3)), ("s", 2.5, (0, 0, 0)), ("s", 0.5, (1, -1, 2)))


def sequences(moves, depth):
    for n in range(1, depth + 1):
        yield from itertools.product(moves, repeat=n)


def carrier():
    """A solid to carry a graph; its own shape is of no importance."""
    from yapcad import geom3d as g3
    from yapcad.geom import point
    v = [point(0, 0, 0), point(1, 0, 0), point(0, 1, 0), point(0, 0, 1)]
    s = ["surface", v, [[0, 0, 1.0, 0]] * 4, [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]], [], []]
    return g3.solid([s])


def loaded(graph):
    from yapcad import native_brep as nb
    s = carrier()
    nb.attach_native_brep_to_solid(s, graph)
    return s


def read(solid):
    from yapcad import native_brep as nb
    g = nb.native_brep_from_solid(solid)
    require(g is not None, "the graph is gone")
    return g


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if not str(k).startswith("_")}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


TABLES = ("vertices", "edges", "trims", "loops", "faces", "shells", "solids")


def dump(g):
    return {t: plain(getattr(g, t)) for t in TABLES}


def differ(a, b, path=""):
    """The first place where two dumps differ, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "{}.{} only on one side".format(path, k)
            d = differ(a[k], b[k], "{}.{}".format(path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "{}: {} against {} items".format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "{}[{}]".format(path, i))
            if d:
                return d
        return None
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
        return None if abs(a - b) <= 1e-12 * max(1, abs(a)) else "{}: {} against {}".format(path, a, b)
    return None if a == b and type(a) is type(b) else "{}: {!r} against {!r}".format(path, a, b)


# ---------------------------------------------------------------- storage

SHAPES = {
    "box": lambda: topo.box((0, 0, 0), (1, 2, 3)),
    "tetra": lambda: topo.tetra((0, 0, 0), 2),
    "cylinder": lambda: topo.cylinder((0, 0, 0), 1, 2),
    "ball": lambda: topo.ball((0, 0, 0), 1),
    "ring": lambda: topo.ring((0, 0, 0), 2, 0.5),
    "tunnel": lambda: topo.tunnel((0, 0, 0), (4, 4, 2), 1),
    "hinge": lambda: topo.hinge(1),
}
EDGES = ("line", "bulge", "arc", "cw", "circle", "bspline", "rational", "ellipse")


def make_edge(nb, kind, a, b, **kw):
    from yapcad.geom import point
    if kind == "line":
        return nb.line_edge(a, b, **kw)
    if kind == "bulge":
        return nb.arc_edge(a, b, bulge=-0.5, **kw)
    if kind == "bulged":
        return nb.arc_edge(a, b, bulge=1.25, **kw)
    if kind == "arc":
        return nb.arc_edge(a, b, center=point(0, 0, 0), **kw)
    if kind == "cw":
        return nb.arc_edge(a, b, center=point(0, 0, 0), orientation=-1, **kw)
    if kind == "circle":
        return nb.circle_edge(a, b, point(0, 0, 0), [0, 0, 2, 0], 3.0, t_start=0.25, t_end=1.5, **kw)
    if kind == "bspline":
        return nb.bspline_edge(a, b, [point(3, 0, 0), point(3, 2, 1), point(1, 3, -1), point(0, 3, 0)], [0, 0, 0, 0, 2, 2, 2, 2], 3, **kw)
    if kind == "rational":
        return nb.bspline_edge(a, b, [point(3, 0, 0), point(3, 3, 0), point(0, 3, 0)], [0, 0, 0, 1, 1, 1], 2, weights=[1, 0.7, 1], t_start=0.25, t_end=0.75, **kw)
    return nb.brep_edge("ellipse", a, b, curve_params={"center": point(1, 1, 0), "semi_major": 3.0, "semi_minor": 2.0, "rotation": 10.0}, **kw)


def judge_store(case):
    from yapcad import native_brep as nb
    name, stype, closed, cycles, via = case
    b = topo.Built(SHAPES[name]())
    g = b.g
    for i, f in enumerate(b.fobj):
        f[2]["tags"]["n"] = [i, "f"]
    for i, v in enumerate(b.vobj):
        v[2]["tolerance"] = 0.001 * (i + 1)
    half = len(b.fobj) // 2
    parts = [b.fobj] if stype == "outer" else [b.fobj, b.fobj[:half] or b.fobj]
    shells = []
    for i, fs in enumerate(parts):
        s = nb.brep_shell(list(fs), shell_type=stype if i or stype == "outer" else "outer", closed=closed if not i else False, tags={"i": i})
        try:
            g.add_shell(s)
        except nb.ShellClosureError:
            return None
        shells.append(s)
    so = nb.brep_solid(shells, tags={"part": name})
    g.add_solid(so, validate=False)
    want = dump(g)
    adj = {v: sorted(nb.edge_id(e) for e in g.vertex_edges(v)) for v in g.vertices}, {e: sorted(nb.face_id(f) for f in g.edge_faces(e)) for e in g.edges}
    got = g
    for _ in range(cycles):
        if via == "solid":
            got = read(loaded(got))
        elif via == "json":
            got = nb.deserialize_topology_graph(json.loads(json.dumps(nb.serialize_topology_graph(got))))
        else:
            s = loaded(got)
            got = read(json.loads(json.dumps(s)))
    d = differ(want, dump(got))
    require(d is None, "{} stored {} times by {}: {}", name, cycles, via, d)
    adj2 = {v: sorted(nb.edge_id(e) for e in got.vertex_edges(v)) for v in got.vertices}, {e: sorted(nb.face_id(f) for f in got.edge_faces(e)) for e in got.edges}
    require(adj == adj2, "{} stored by {}: adjacency changed", name, via)
    require(differ(want, dump(g)) is None, "{}: storing changed the graph", name)
    return Out("store", [h(repr(case))], len(want["faces"]))


def judge_storededge(case):
    from yapcad import native_brep as nb
    from yapcad.geom import point
    kind, sense, tol, tags, cycles = case
    g = nb.TopologyGraph()
    a, b = nb.brep_vertex(point(3, 0, 0)), nb.brep_vertex(point(0, 3, 0))
    g.add_vertex(a), g.add_vertex(b)
    g.add_edge(make_edge(nb, kind, a, b, sense=sense, tolerance=tol, tags={"k": list(tags)} if tags else None))
    want = dump(g)
    got = g
    for _ in range(cycles):
        got = nb.deserialize_topology_graph(json.loads(json.dumps(nb.serialize_topology_graph(got))))
    d = differ(want, dump(got))
    require(d is None, "{} edge stored: {}", kind, d)
    return Out("store", [h(repr(case))], 1)


# ---------------------------------------------------------------- patches

def patch(name):
    from yapcad import analytic_surfaces as A
    k, *a = name
    if k == "plane":
        return A.plane_surface(a[0], a[1], u_range=a[2], v_range=a[3])
    if k == "cylinder":
        return A.cylinder_surface(a[0], a[1], 1.5, u_range=a[2], v_range=a[3])
    if k == "cone":
        return A.cone_surface(a[0], a[1], 0.5, u_range=a[2], v_range=a[3])
    if k == "torus":
        return A.torus_surface(a[0], a[1], 3, 1, u_range=a[2], v_range=a[3])
    if k == "sphere":
        return A.sphere_surface(a[0], 2.0, u_range=a[1], v_range=a[2])
    if k == "bspline":
        pts = [[(i, j, (i * 2 + j * j) % 3) for i in range(4)] for j in range(3)]
        w = [[1 + 0.25 * ((i + 2 * j) % 3) for i in range(4)] for j in range(3)] if a[0] else None
        return A.bspline_surface(pts, [0, 0, 0, 0.25, 1, 1, 1], [0, 0, 1, 2, 2], 2, 1, weights=w, u_range=a[1])
    return A.tessellated_surface([(0, 0, 0), (2, 0, 0), (2, 1, 1), (0, 1, 1)], [(0, -0.6, 0.8)] * 4, [(0, 1, 2), (0, 2, 3)])


GRID = (0, 0.25, 0.5, 0.75, 1)


def samples(s):
    """Points of the patch with their normals, and whether its triangles mostly show their side."""
    from yapcad import analytic_surfaces as A
    if s[0] == "tessellated_surface":
        pts = [(tuple(v[:3]), tuple(n[:3])) for v, n in zip(s[1]["vertices"], s[1]["normals"])]
    else:
        (u0, u1), (v0, v1) = s[2]["u_range"], s[2]["v_range"]
        pts = []
        for a in GRID:
            for b in GRID:
                u, v = u0 + a * (u1 - u0), v0 + b * (v1 - v0)
                pts.append((tuple(A.evaluate_surface(s, u, v)[:3]), tuple(A.surface_normal(s, u, v)[:3])))
    t = A.tessellate_surface(s, u_divisions=4, v_divisions=4)
    sides = 0
    for f in t[3]:
        p = [t[1][i] for i in f]
        n = cross([p[1][i] - p[0][i] for i in range(3)], [p[2][i] - p[0][i] for i in range(3)])
        m = math.sqrt(dot(n, n))
        if m > 1e-9:
            sides += 1 if dot(n, t[2][f[0]]) > 0 else -1
    return pts, sides > 0


def same_points(got, want, tol, ntol):
    left = list(got)
    for p, n in want:
        for i, (q, m) in enumerate(left):
            if max(abs(a - b) for a, b in zip(p, q)) <= tol and max(abs(a - b) for a, b in zip(n, m)) <= ntol:
                del left[i]
                break
        else:
            near = min(got, key=lambda x: sum((a - b) ** 2 for a, b in zip(x[0], p)))
            return "no point of it is ({}, normal {}); nearest ({}, normal {})".format(p, n, *near)
    return None


def judge_patch(case):
    from yapcad import native_brep as nb
    name, moves, sense = case
    g = nb.TopologyGraph()
    s = patch(name)
    fid = g.add_face(nb.brep_face(s, [], sense=sense))
    pts, sides = samples(s)
    solid = loaded(g)
    before = json.dumps(solid)
    got = read(moved(solid, moves))
    require(json.dumps(solid) == before, "{} {}: moving changed the original solid", name, moves)
    face = got.get_face(fid)
    require(face is not None and bool(face[2]["sense"]) == sense, "{} {}: the face changed", name, moves)
    want = [(images(moves, p), turned(moves, n)) for p, n in pts]
    f = nb.face_surface(face)
    if name[0] == "sphere" and any(m[0] in "rm" for m in moves):
        c = images(moves, s[1][:3])
        require(max(abs(a - b) for a, b in zip(c, f[1])) < 1e-9 and abs(f[2]["radius"] - 2 * size(moves)) < 1e-9, "{} {}: center {} radius {}", name, moves, f[1], f[2]["radius"])
        return Out("patch", [h(repr(case))], 1)
    gp, gs = samples(f)
    d = same_points(gp, want, 1e-8 * max(1, size(moves)), 1e-4 if name[0] == "bspline" else 1e-8)
    require(d is None and len(gp) == len(want), "{} {}: {}", name, moves, d)
    require(gs == sides, "{} {}: the triangles show the other side", name, moves)
    return Out("patch", [h(repr(case))], len(pts))


# ---------------------------------------------------------------- edges

def curve_points(nb, e, ends):
    from yapcad.geom import sample
    c = nb.evaluate_edge_curve(e, *ends)
    return [tuple(sample(c, t)[:3]) for t in (0, 0.25, 0.5, 0.75, 1)]


ENDS = {"bulge": ((3, 0, 0), (1, 2, 0)), "bulged": ((3, 0, 0), (1, 2, 0))}


def reference(kind, ends):
    """Points along the arc or line, from its start to its end."""
    a, b = ends
    if kind == "line":
        return [tuple(x + (y - x) * t for x, y in zip(a, b)) for t in (0, 0.25, 0.5, 0.75, 1)]
    if kind in ("arc", "cw"):
        sweep, r, c, s = (math.pi / 2 if kind == "arc" else -1.5 * math.pi), 3.0, (0, 0), 0.0
    else:
        bulge = {"bulge": -0.5, "bulged": 1.25}[kind]
        sweep = 4 * math.atan(bulge)
        ch = math.dist(a, b)
        r = ch / (2 * abs(math.sin(sweep / 2)))
        m = [(x + y) / 2 for x, y in zip(a, b)]
        left = (-(b[1] - a[1]) / ch, (b[0] - a[0]) / ch)
        off = ch / (2 * math.tan(sweep / 2))
        c = (m[0] + left[0] * off, m[1] + left[1] * off)
        s = math.atan2(a[1] - c[1], a[0] - c[0])
    return [(c[0] + r * math.cos(s + sweep * t), c[1] + r * math.sin(s + sweep * t), a[2]) for t in (0, 0.25, 0.5, 0.75, 1)]


def near(a, b, tol=1e-7):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def judge_edge(case):
    from yapcad import native_brep as nb
    from yapcad.geom import point
    kind, moves, how = case
    ends = ENDS.get(kind, ((3, 0, 0), (0, 3, 0)))
    g = nb.TopologyGraph()
    a, b = (nb.brep_vertex(point(*p)) for p in ends)
    g.add_vertex(a), g.add_vertex(b)
    eid = g.add_edge(make_edge(nb, kind, a, b))
    first = nb.edge_curve_params(g.get_edge(eid))
    if how == "solid":
        g = read(moved(loaded(g), moves))
    else:
        fn = lambda p: point(*images(moves, p))
        (g.transform if how == "method" else lambda f: nb.transform_topology_graph(g, f))(fn)
    e = g.get_edge(eid)
    now = [nb.vertex_location(g.get_vertex(v))[:3] for v in nb.edge_vertices(e)]
    for p, q in zip(ends, now):
        require(near(images(moves, p), q), "{} {}: a vertex at {} came to {}", kind, moves, p, q)
    pr = nb.edge_curve_params(e)
    if kind in ("line", "arc", "cw", "bulge", "bulged"):
        want = [images(moves, p) for p in reference(kind, ends)]
        got = [tuple(p) for p in curve_points(nb, e, [point(*p) for p in now])]
        require(all(near(p, q, 1e-6) for p, q in zip(want, got)), "{} {} by {}: runs {} want {}", kind, moves, how, got, want)
        by = g.evaluate_edge(eid)
        require(repr(by) == repr(nb.evaluate_edge_curve(e, *[nb.vertex_location(g.get_vertex(v)) for v in nb.edge_vertices(e)])), "{}: the graph gives another curve", kind)
    if "center" in first:
        require(near(images(moves, first["center"]), pr["center"]), "{} {} by {}: center {}", kind, moves, how, pr["center"])
    if kind == "circle":
        n = turned(moves, (0, 0, 1))
        if flips(moves):
            n = tuple(-x for x in n)
        require(near(n, pr["axis"]), "{} {} by {}: axis {} want {}", kind, moves, how, pr["axis"], n)
        if how == "solid":
            require(abs(pr["radius"] - 3 * size(moves)) < 1e-9, "{} {}: radius {}", kind, moves, pr["radius"])
        require((pr["t_start"], pr["t_end"]) == (0.25, 1.5), "{} {}: parameters changed", kind, moves)
    if kind == "ellipse" and how == "solid":
        require(abs(pr["semi_major"] - 3 * size(moves)) < 1e-9 and abs(pr["semi_minor"] - 2 * size(moves)) < 1e-9, "{} {}: axes {}", kind, moves, pr)
    if "control_points" in first:
        require(len(pr["control_points"]) == len(first["control_points"]) and all(near(images(moves, p), q) for p, q in zip(first["control_points"], pr["control_points"])), "{} {} by {}: control points {}", kind, moves, how, pr["control_points"])
        require(all(differ(plain(first[k]), plain(pr[k])) is None for k in ("knots", "weights", "degree", "t_start", "t_end")), "{} {}: knots or weights changed", kind, moves)
    return Out("edge", [h(repr(case))], 1)


# ---------------------------------------------------------------- graphs

POINTS = {
    "box": ((0.5, 0.4, 0.3), (0.9, 1.9, 2.8), (1.4, 1, 1), (0.5, -0.6, 1), (0.3, 1.1, 3.7)),
    "cylinder": ((0.1, 0.2, 1), (0.5, 0.5, 0.2), (0.9, 0.9, 1), (0.1, 0.2, 2.5), (-1.5, 0.1, 1)),
    "ball": ((0.1, 0.2, 0.3), (0.5, 0.5, 0.4), (0.9, 0.9, 0.1), (0, 0.1, -1.3)),
    "ring": ((2, 0.1, 0.1), (-1.4, 1.4, 0.1), (0.1, 0.1, 0), (2.2, 1.9, 0), (0.2, 2, 0.8)),
}


def shelled(name, closed=True):
    from yapcad import native_brep as nb
    b = topo.Built(SHAPES[name]())
    s = nb.brep_shell(b.fobj, closed=closed)
    sid = b.g.add_shell(s)
    b.g.add_solid(nb.brep_solid([s]), validate=False)
    return b.g, sid


def judge_graph(case):
    name, moves, queried = case
    g, sid = shelled(name)
    inside = [g.shell_contains_point(sid, list(p) + [1]) for p in POINTS[name]] if queried else None
    want = dump(g)
    solid = loaded(g)
    got = read(moved(solid, moves))
    now = dump(got)
    for t in TABLES:
        require(list(now[t]) == list(want[t]), "{} {}: {} changed", name, moves, t)
    for v, d in want["vertices"].items():
        require(near(images(moves, d[1]), now["vertices"][v][1]) and d[2]["edges"] == now["vertices"][v][2]["edges"], "{} {}: vertex {} wants {}", name, moves, now["vertices"][v], images(moves, d[1]))
    for e, d in want["edges"].items():
        require(d[2]["faces"] == now["edges"][e][2]["faces"] and (d[1], d[2]["start_vertex_id"], d[2]["end_vertex_id"]) == (now["edges"][e][1], now["edges"][e][2]["start_vertex_id"], now["edges"][e][2]["end_vertex_id"]), "{} {}: an edge changed", name, moves)
    for t in ("trims", "loops", "shells", "solids"):
        d = differ(want[t], now[t])
        require(d is None, "{} {}: {} {}", name, moves, t, d)
    require(got.compute_shell_closure(sid)[0] is True, "{} {}: the shell is open", name, moves)
    truth = {"box": (1, 1, 0, 0, 0), "cylinder": (1, 1, 0, 0, 0), "ball": (1, 1, 0, 0), "ring": (1, 1, 0, 0, 0)}[name]
    if inside is not None:
        require(inside == [bool(x) for x in truth], "{}: {}", name, inside)
    for p, t in zip(POINTS[name], truth):
        q = images(moves, p)
        require(got.shell_contains_point(sid, list(q) + [1]) == bool(t), "{} {}: {} (from {}) inside should be {}", name, moves, q, p, bool(t))
    return Out("graph", [h(repr(case))], len(truth))


def judge_inplace(case):
    """A graph queried, moved in place, and queried again."""
    from yapcad import native_brep as nb
    from yapcad.geom import point
    name, moves = case
    g, sid = shelled(name)
    truth = [g.shell_contains_point(sid, list(p) + [1]) for p in POINTS[name]]
    box = g.shell_bbox(sid)
    for i, m in enumerate(moves):
        nb.transform_topology_graph(g, lambda p: point(*image(m, p)))
        got = [g.shell_contains_point(sid, list(images(moves[:i + 1], p)) + [1]) for p in POINTS[name]]
        require(got == truth, "{} {}: {} want {}", name, moves[:i + 1], got, truth)
    require(box is not None and g.shell_bbox(sid) is not None, "{}: no box", name)
    return Out("graph", [h(repr(case))], len(moves))


def judge_uneven(case):
    from yapcad import geom3d as g3
    from yapcad import native_brep as nb
    from yapcad.geom import point
    name, factors, moves = case
    g, sid = shelled(name)
    solid = moved(loaded(g), moves)
    keep = json.dumps(solid)
    out = g3.scalesolid(solid, *factors, cent=point(1, 0, 0))
    f = [factors[0]] + [factors[i] if len(factors) > i and factors[i] is not False else factors[0] for i in (1, 2)]
    even = f[0] == f[1] == f[2]
    require(nb.has_native_brep(out) == even, "scaled by {}: the solid {} a graph", factors, "lost" if even else "kept")
    require(json.dumps(solid) == keep and nb.has_native_brep(solid), "scaling by {} changed the original", factors)
    if even:
        got = read(out)
        for v, d in read(solid).vertices.items():
            want = tuple(c + (x - c) * f[0] for x, c in zip(d[1][:3], (1, 0, 0)))
            require(near(want, got.vertices[v][1]), "scaled by {}: vertex {} want {}", factors, got.vertices[v][1], want)
    nb.clear_native_brep(out)
    require(nb.native_brep_from_solid(out) is None and not nb.has_native_brep(out) and nb.has_native_brep(solid), "clearing")
    return Out("uneven", [h(repr(case))], 1)


PI = math.pi


def patches(deep):
    axes = ((0, 0, 1), (1, 0, 0), (0.6, 0, -0.8), (1, 2, 2)) if deep else ((0, 0, 1), (0.6, 0, -0.8))
    for o in ((0, 0, 0), (1, 2, -1)):
        for ax in axes:
            yield ("plane", o, ax, (-1, 1), (-1, 1))
            yield ("plane", o, ax, (-1, 2.5), (0.5, 1))
            for u in ((0, 2 * PI), (0.3, 1.9)):
                for v in ((0, 2), (-1, 0.5)):
                    yield ("cylinder", o, ax, u, v)
                yield ("cone", o, ax, u, (0.5, 2))
                yield ("torus", o, ax, u, (0, 2 * PI))
                yield ("torus", o, ax, u, (0.2, 1.5))
        yield ("sphere", o, (0, 2 * PI), (-PI / 2, PI / 2))
    for w in (False, True):
        for u in ((0, 1), (0.125, 0.5)):
            yield ("bspline", w, u)
    yield ("tessellated",)


def run(ctx):
    deep = ctx.thorough
    store = list(itertools.product(SHAPES, ("outer", "void", "inner"), (True, False, None), (1, 2), ("solid", "json", "solidjson")))
    edges = list(itertools.product(EDGES + ("bulged",), (True, False), (1e-6, 0.5), ((), (1, "x")), (1, 2)))
    pat = [(p, m, s) for p in patches(deep) for m in sequences(MOVES, 2) for s in ((True, False) if len(m) == 1 else (True,))]
    pat += [(("sphere", (1, 2, -1), u, v), m, True) for u, v in (((0, 1), (-0.5, 1)), ((1, 4), (0, 1.5))) for m in sequences(STILL, 2)]
    if deep:
        pat += [(p, m, True) for p in (("plane", (1, 2, -1), (0.6, 0, -0.8), (-1, 2.5), (0.5, 1)), ("cylinder", (1, 2, -1), (0.6, 0, -0.8), (0.3, 1.9), (-1, 0.5)), ("cone", (1, 2, -1), (0.6, 0, -0.8), (0.3, 1.9), (0.5, 2)), ("torus", (0, 0, 0), (1, 2, 2), (0.3, 1.9), (0.2, 1.5)), ("bspline", True, (0.125, 0.5)), ("tessellated",)) for m in itertools.product(MOVES, repeat=3)]
    depth = 3 if deep else 2
    ed = [(k, m, "solid") for k in ("line", "circle", "bspline", "rational", "ellipse") for m in sequences(MOVES, depth)]
    ed += [(k, m, "solid") for k in ("arc", "cw", "bulge", "bulged") for m in [()] + list(sequences(PLANAR, depth))]
    ed += [(k, m, w) for w in ("graph", "method") for k in ("line", "circle", "bspline", "rational", "ellipse", "arc", "cw") for m in sequences([x for x in PLANAR if x[0] != "m" or w == "graph"], 2)]
    gr = [(n, m, q) for n in POINTS for m in sequences(MOVES, 2 if deep else 1) for q in (True, False)]
    if not deep:
        gr += [("box", m, False) for m in itertools.product(MOVES, repeat=2)]
    ip = [(n, m) for n in ("box", "ball") for m in itertools.product([x for x in MOVES if x[0] != "s"], repeat=2)]
    fac = [(a, b, c) for a in (2, 1, 0.5) for b in (2, 1, 0.5, False) for c in (2, 1, 0.5, False)]
    fac = [f for f in fac if not (f[0] == 1 and f[1] in (1, False) and f[2] in (1, False))] + [(2,), (0.5,)]
    un = [(n, f, m) for n in ("box", "cylinder") for f in fac for m in ((), (MOVES[3],))]
    ctx.explore(judge, [("store", store), ("storededge", edges), ("patch", pat), ("edge", ed), ("graph", gr, 2), ("inplace", ip, 2), ("uneven", un)], batch=20)
    ctx.assumptions.append("moves are by the fixed amounts of the list; factors of scaling are positive; whole spheres are judged by center and radius after a rotation")
