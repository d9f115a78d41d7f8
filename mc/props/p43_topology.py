"""P43: native B-rep graphs answer adjacency, closure, containment and validity."""
import itertools
import math

from mc import topo
from mc.core import Out, h, require as _require

META = {
    "id": "P43",
    "title": "B-rep graphs answer adjacency, closure, containment and validity",
    "statement": "In a `TopologyGraph` the edges of a vertex, the faces of an edge and the edges of a face are exactly those that were built, and a shell is closed exactly when every edge of its faces is used twice, whatever subset of faces it has; the boundary and non-manifold edges, the counts and the refusal of a shell that claims to be closed say the same. A point is contained in a closed shell exactly when it lies inside, two shells intersect exactly when their surfaces do, and a solid is accepted exactly when its shells are closed, apart and its voids lie in its first shell. An answer does not depend on queries made before it.",
    "over": ["inputs", "histories"],
    "forall": "every subset of the faces of every shape of the library with every closed flag; every lattice point against every placed box, ball and ring; every pair and triple of shells of the grid; every history of queries and moves to length 3",
    "why": "Closure fails on one subset and containment on one point whose ray meets an edge of the tessellation; the suite checks a closed and an open cube.",
    "files": ["src/yapcad/native_brep.py"],
    "mech": [["adjacency", "native_brep.py:TopologyGraph.add_edge"], ["closure", "native_brep.py:TopologyGraph.compute_shell_closure"], ["containment", "native_brep.py:TopologyGraph.shell_contains_point"], ["validation", "native_brep.py:TopologyGraph.validate_solid"]],
    "technique": "explicit enumeration of face subsets, query points, shell placements and query histories on the real graph, judged by counting and by closed-form solids",
    "note": "containment and intersection are judged for shells whose faces are whole patches; points and shells closer to a surface than its tessellation error are left out",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


SHAPES = {
    "box": lambda: topo.box((0, 0, 0), (1, 2, 3)),
    "tetra": lambda: topo.tetra((0, 0, 0), 2),
    "cylinder": lambda: topo.cylinder((0, 0, 0), 1, 2),
    "ball": lambda: topo.ball((0, 0, 0), 1),
    "ring": lambda: topo.ring((0, 0, 0), 2, 0.5),
    "hinge": lambda: topo.hinge(1),
    "pair": lambda: topo.join(topo.tetra((0, 0, 0), 1), topo.tetra((5, 0, 0), 1)),
    "tunnel": lambda: topo.tunnel((0, 0, 0), (4, 4, 2), 1),
}


def ids(objs, fn):
    return [fn(o) for o in objs]


def judge_adjacency(case):
    name, by_object = case
    b = topo.Built(SHAPES[name](), by_object)
    g, nb = b.g, b.nb
    vs, es, fs = b.shape
    edges_of = [[(e) for lo in loops for e, _ in lo[1]] for _, loops, _ in fs]
    for round_ in range(2):
        for i, vid in enumerate(b.v):
            want = sorted(b.e[j] for j, e in enumerate(es) if i in (e[1], e[2]))
            require(sorted(ids(g.vertex_edges(vid), nb.edge_id)) == want, "{}: edges of vertex {} are wrong", name, i)
            require(nb.vertex_location(g.get_vertex(vid))[:3] == [float(x) for x in vs[i]] or list(nb.vertex_location(g.get_vertex(vid))[:3]) == list(vs[i]), "{}: vertex {} moved", name, i)
        for j, eid in enumerate(b.e):
            want = {b.f[k] for k, es_ in enumerate(edges_of) if j in es_}
            require(set(ids(g.edge_faces(eid), nb.face_id)) == want, "{}: faces of edge {} are wrong", name, j)
            require(nb.edge_vertices(g.get_edge(eid)) == (b.v[es[j][1]], b.v[es[j][2]]), "{}: ends of edge {} are wrong", name, j)
        for k, fid in enumerate(b.f):
            got = ids(g.face_edges(fid), nb.edge_id)
            want = list(dict.fromkeys(b.e[j] for j in edges_of[k]))
            require(got == want, "{}: edges of face {} are {} want {}", name, k, got, want)
            got = [[(g.trims[t][1], g.trims[t][2]["sense"]) for t in nb.loop_trims(g.loops[l])] for l in nb.face_loops(g.faces[fid])]
            require(got == [[(b.e[e], d) for e, d in uses] for _, uses in fs[k][1]], "{}: loops of face {} changed", name, k)
            require([nb.loop_type(g.loops[l]) for l in nb.face_loops(g.faces[fid])] == [t for t, _ in fs[k][1]], "{}: loop types of face {}", name, k)
    n = g.summary()
    require((n["vertices"], n["edges"], n["faces"], n["trims"], n["loops"], n["shells"], n["solids"]) == (len(vs), len(es), len(fs), sum(len(u) for _, ls, _ in fs for _, u in ls), sum(len(ls) for _, ls, _ in fs), 0, 0), "{}: summary {}", name, n)
    require(g.vertex_edges("x") == g.edge_faces("x") == g.face_edges("x") == [] and g.get_vertex("x") is None, "{}: unknown ids have neighbours", name)
    return Out("adjacency", [h(repr(case))], len(vs) + len(es) + len(fs))


_CACHE = {}


def judge_closure(case):
    name, mask, flag, flip, by_object = case
    if name not in _CACHE:
        _CACHE[name] = topo.Built(SHAPES[name]())
    b = _CACHE[name]
    g, nb = b.g, b.nb
    vs, es, fs = b.shape
    pick = [k for k in range(len(fs)) if mask >> k & 1]
    if flip:
        pick.reverse()
    uses = {}
    for k in pick:
        for _, loop in fs[k][1]:
            for e, _ in loop:
                uses[e] = uses.get(e, 0) + 1
    open_, many = {b.e[e] for e, n in uses.items() if n == 1}, {b.e[e] for e, n in uses.items() if n > 2}
    closed = not open_ and not many
    shell = nb.brep_shell([b.fobj[k] if by_object else b.f[k] for k in pick], closed=flag)
    sid = nb.shell_id(shell)
    try:
        try:
            got = g.add_shell(shell)
            bad = None
        except nb.ShellClosureError as e:
            bad = e
        require((bad is not None) == (flag is True and not closed), "{}: a {} shell flagged {} is {}", case, "closed" if closed else "open", flag, "refused" if bad else "accepted")
        if bad is None:
            require(got == sid and nb.shell_closed(shell) == (closed if flag is None else flag), "{}: closed flag became {}", case, nb.shell_closed(shell))
            require(all(g.faces[b.f[k]][2]["shell_id"] == sid for k in pick), "{}: faces do not know their shell", case)
        ok, d = g.compute_shell_closure(sid)
        V = len({v for e in uses for v in es[e][1:3]})
        for dd in (d, bad.details if bad else d):
            require(sorted(dd["boundary_edges"]) == sorted(open_) and sorted(dd["non_manifold_edges"]) == sorted(many), "{}: boundary {} non-manifold {}", case, len(dd["boundary_edges"]), len(dd["non_manifold_edges"]))
            require((dd["vertex_count"], dd["edge_count"], dd["face_count"]) == (V, len(uses), len(pick)) and dd["euler_characteristic"] == V - len(uses) + len(pick), "{}: counts {}", case, dd)
            require({e: sorted(x) for e, x in dd["edge_usage"].items()} == {b.e[e]: sorted(b.f[k] for k in pick for _, lo in fs[k][1] for x, _ in lo if x == e) for e in uses}, "{}: edge usage", case)
        require(ok == closed, "{}: closed is {} want {}", case, ok, closed)
        require(g.shell_vertices(sid) == {b.v[v] for e in uses for v in es[e][1:3]}, "{}: vertices of the shell", case)
        try:
            g.validate_shell_closure(sid)
            require(closed, "{}: an open shell validates", case)
        except nb.ShellClosureError:
            require(not closed, "{}: a closed shell does not validate", case)
        require(sorted(nb.shell_faces(shell)) == sorted(b.f[k] for k in pick), "{}: faces of the shell", case)
        # added without validation, the flag is left as it was
        s2 = nb.brep_shell([b.f[k] for k in pick], closed=flag)
        g.add_shell(s2, validate_closure=False)
        require(nb.shell_closed(s2) is flag, "{}: unvalidated flag became {}", case, nb.shell_closed(s2))
        # a solid of it is accepted exactly when it is closed and not flagged open
        if pick and name in ("box", "ball"):
            for s in (shell, s2):
                sol = nb.brep_solid([s])
                try:
                    g.add_solid(sol)
                    acc = True
                except nb.SolidValidationError:
                    acc = False
                g.solids.pop(nb.solid_id(sol), None)
                require(acc == (closed and nb.shell_closed(s) is not False), "{}: a solid of it is {}", case, "accepted" if acc else "refused")
        g.shells.pop(nb.shell_id(s2), None)
    finally:
        g.shells.pop(sid, None)
    return Out("closure", [h(repr(case))], len(pick))


# ---- containment and intersection: solids (kind, centre, sizes)

def solid_shape(s):
    k, c, z = s
    if k == "box":
        return topo.box(tuple(x - d for x, d in zip(c, z)), tuple(x + d for x, d in zip(c, z)))
    if k == "ball":
        return topo.ball(c, z[0])
    return topo.ring(c, z[0], z[1])


def depth(s, p):
    """Signed distance of p to the surface (or a lower bound on it), positive inside."""
    k, c, z = s
    d = [abs(p[i] - c[i]) for i in range(3)]
    if k == "box":
        m = min(z[i] - d[i] for i in range(3))
        return m
    if k == "ball":
        return z[0] - math.dist(p, c)
    return z[1] - math.hypot(math.hypot(d[0], d[1]) - z[0], d[2])


FINE = (16, 16)          # the graph's own divisions
COARSE = (6, 4)          # those of the pairwise checks, to keep them affordable


def slack(s, div=FINE):
    """How far the tessellation may be from the surface."""
    if s[0] == "box":
        return 1e-6
    a, b = 1 - math.cos(math.pi / div[0]), 1 - math.cos(math.pi / div[1])
    if s[0] == "ball":
        return (a + b) * s[2][0]
    return a * (s[2][0] + s[2][1]) + b * s[2][1]


def coarse(g):
    full = g.tessellate_shell
    g.tessellate_shell = lambda sid, *a, **k: full(sid, *COARSE)
    return g


def shell_of(g, s):
    """Add the solid's shell to the graph; return its id."""
    b = topo.Built(solid_shape(s))
    for part in ("vertices", "edges", "trims", "loops", "faces"):
        getattr(g, part).update(getattr(b.g, part))
    sh = b.nb.brep_shell(b.f)
    g.add_shell(sh)
    return b.nb.shell_id(sh)


_GR = {}


def judge_contains(case):
    from yapcad import native_brep as nb
    from yapcad.geom import point
    s, rows = case
    if s not in _GR:
        _GR.clear()
        g = nb.TopologyGraph()
        _GR[s] = (g, shell_of(g, s))
    g, sid = _GR[s]
    n = 0
    for p in rows:
        q = tuple(s[1][i] + p[i] for i in range(3))
        d = depth(s, q)
        if abs(d) <= slack(s) + 1e-6:
            continue
        n += 1
        got = g.shell_contains_point(sid, point(*q))
        require(got is (d > 0) or got == (d > 0), "{}: point {} is {} but the shell says {}", s, q, "inside" if d > 0 else "outside", got)
    return Out("contained", [h(repr((s, rows)))], n) if n else None


def gap(a, b):
    """+1: surfaces certainly cross, -1: certainly apart, 0: too close to say; and whether b is inside a."""
    samples = 0
    if a[0] == b[0] == "box":
        lo = lambda s, i: s[1][i] - s[2][i]
        hi = lambda s, i: s[1][i] + s[2][i]
        for i in range(3):
            for x in (lo(a, i), hi(a, i)):
                for y in (lo(b, i), hi(b, i)):
                    if abs(x - y) < 1e-6:
                        return 0, False
        if any(hi(a, i) < lo(b, i) or hi(b, i) < lo(a, i) for i in range(3)):
            return -1, False
        ain = all(lo(b, i) < lo(a, i) and hi(a, i) < hi(b, i) for i in range(3))
        bin_ = all(lo(a, i) < lo(b, i) and hi(b, i) < hi(a, i) for i in range(3))
        return (-1, bin_) if ain or bin_ else (1, False)
    if a[0] == b[0] == "ball":
        d, r, s = math.dist(a[1], b[1]), a[2][0], b[2][0]
        t = slack(a, COARSE) + slack(b, COARSE) + 1e-6
        if d > r + s + t:
            return -1, False
        if d < abs(r - s) - t:
            return -1, s < r
        return (1, False) if abs(r - s) + t < d < r + s - t else (0, False)
    if a[0] == "ball":
        g, _ = gap(b, a)
        near = [max(0.0, abs(a[1][i] - b[1][i]) - b[2][i]) for i in range(3)]
        far = max(math.dist([b[1][i] + sg[i] * b[2][i] for i in range(3)], a[1]) for sg in itertools.product((-1, 1), repeat=3))
        return g, far < a[2][0] and g == -1
    # box a, ball b
    t = slack(b, COARSE) + 1e-6
    r = b[2][0]
    q = [abs(b[1][i] - a[1][i]) for i in range(3)]
    out = math.sqrt(sum(max(0.0, q[i] - a[2][i]) ** 2 for i in range(3)))
    far = math.sqrt(sum((q[i] + a[2][i]) ** 2 for i in range(3)))
    if out > r + t or far < r - t:
        return -1, False
    inside = min(a[2][i] - q[i] for i in range(3))
    if inside > r + t:
        return -1, True
    # the box's surface has points on both sides of the sphere
    near = out if out > 0 else inside
    return (1, False) if near < r - t and far > r + t else (0, False)


def judge_shells(case):
    from yapcad import native_brep as nb
    order = case
    pairs = {(i, j): gap(order[i], order[j]) for i in range(len(order)) for j in range(len(order)) if i != j}
    if any(v[0] == 0 for v in pairs.values()):
        return None
    g = coarse(nb.TopologyGraph())
    sids = [shell_of(g, s) for s in order]
    hit = False
    for (i, j), (c, _) in pairs.items():
        got = g.shells_intersect(sids[i], sids[j])
        require(got == (c > 0), "{}: shells {} and {} {} but the graph says {}", case, i, j, "cross" if c > 0 else "are apart", got)
        hit |= c > 0
    ok = not hit and all(pairs[0, j][1] for j in range(1, len(order)))
    sol = nb.brep_solid(sids)
    try:
        g.add_solid(sol)
        got = True
    except nb.SolidValidationError:
        got = False
    require(got == ok, "{}: the solid is {}", case, "accepted" if got else "refused")
    if ok:
        require(all(g.shells[x][2]["solid_id"] == nb.solid_id(sol) for x in sids), "{}: shells do not know their solid", case)
    g2 = nb.brep_solid(sids)
    g.add_solid(g2, validate=False)
    return Out("validated" if ok else "refused", [h(repr(case))], len(pairs))


def judge_queries(case):
    """Answers after every history of queries and moves are those of a graph that only moved."""
    from yapcad import native_brep as nb
    from yapcad.geom import point
    s, hist = case
    g = coarse(nb.TopologyGraph())
    sid = shell_of(g, s)
    o = nb.TopologyGraph()
    oid = shell_of(o, ("box", (0.03, 0.07, 0.11), (0.4, 0.45, 0.5)))
    for part in ("vertices", "edges", "trims", "loops", "faces", "shells"):
        getattr(g, part).update(getattr(o, part))
    other = ("box", (0.03, 0.07, 0.11), (0.4, 0.45, 0.5))
    at = list(s[1])
    oat = list(other[1])

    def now():
        return (s[0], tuple(at), s[2]), (other[0], tuple(oat), other[2])
    steps = 0
    for op in hist + (("in",), ("cross",)):
        a, b = now()
        if op[0] == "in":
            for p in ((0.013, 0.027, 0.041), (2.3, 0.1, 0.2), (4.05, 0.11, 0.23)):
                d = depth(a, p)
                if abs(d) > slack(a, COARSE) + 1e-6:
                    require(g.shell_contains_point(sid, point(*p)) == (d > 0), "{}: after {} point {} is {}", case, op, p, "inside" if d > 0 else "outside")
                    steps += 1
        elif op[0] == "cross":
            c, _ = gap(a, b)
            if c:
                require(g.shells_intersect(sid, oid) == (c > 0), "{}: shells {}", case, "cross" if c > 0 else "are apart")
                require(g.shells_intersect(oid, sid) == (c > 0), "{}: shells {} the other way", case, "cross" if c > 0 else "are apart")
                steps += 1
        else:
            dx = op[1]
            nb.transform_topology_graph(g, lambda p: point(p[0] + dx, p[1], p[2]))
            at[0] += dx
            oat[0] += dx
    return Out("history", [h(repr(case))], steps)


def run(ctx):
    t = ctx.thorough
    adj = [(n, b) for n in SHAPES for b in (True, False)]
    clo = []
    for n in SHAPES:
        m = len(SHAPES[n]()[2])
        for mask in range(1, 1 << m):
            for flag in (None, True, False):
                for flip in (0, 1) if t or m <= 6 else (mask & 1,):
                    clo.append((n, mask, flag, flip, bool(mask & 2)))
    solids = [("box", c, z) for c in ((0, 0, 0), (0.5, -1, 2)) for z in ((1, 1, 1), (0.5, 1.25, 2))]
    solids += [("ball", c, (r,)) for c in ((0, 0, 0), (1, 2, -0.5)) for r in (1, 2.5)] + [("ring", (0, 0, 0), (2, 0.5)), ("ring", (1, 0, 2), (3, 1.5))]
    steps = (-2, -1.3, -0.75, -0.5, -0.1, 0, 0.25, 0.5, 0.6, 1.4) if t else (-1.3, -0.5, 0, 0.25, 0.6)
    con = []
    for s in solids:
        k = s[2] if s[0] == "box" else (s[2][0],) * 3 if s[0] == "ball" else (sum(s[2]), sum(s[2]), s[2][1])
        for y in steps:
            for z in steps:
                con.append((s, tuple((x * k[0], y * k[1], z * k[2]) for x in steps)))
    big = [("box", (0, 0, 0), (3, 3, 3)), ("ball", (0, 0, 0), (3,)), ("box", (0.1, 0.2, 0.3), (2, 4, 3))]
    small = [(k, c, z) for k, z in (("box", (0.5, 0.6, 0.7)), ("ball", (0.6,)), ("box", (5, 5.5, 6)), ("ball", (8,)), ("box", (0.2, 6, 0.3))) for c in itertools.product((0, 1.05, 3.15, 5.5), (0, -2.85), (0, 2.9))]
    some = small[:: 1 if t else 2]
    sh = [(a, b) for a in big for b in some] + [(b, a) for a in big for b in some[:: 1 if t else 3]] + [(a,) for a in big]
    lit = [s for s in small if s[2][0] < 1]
    trip = [(a, b, c) for a in big[:1 if not t else 3] for b, c in itertools.combinations(lit[:: 1 if t else 3], 2)]
    ops = [("in",), ("cross",), ("move", 2.0), ("move", -4.25)]
    hist = [p for n in range(4 if t else 3) for p in itertools.product(ops, repeat=n)]
    qs = [(s, p) for s in (("box", (0, 0, 0), (1, 1, 1)), ("ball", (0, 0, 0), (0.7,)), ("ball", (0.5, 0, 0), (3,))) for p in hist]
    ctx.notes["shapes"] = sorted(SHAPES)
    ctx.explore(judge, [("adjacency", adj), ("closure", clo), ("contains", con, 5), ("shells", sh + trip, 4), ("queries", qs, 4)], batch=64)
