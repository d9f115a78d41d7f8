"""Native B-rep graphs built from a plain description, for P43 and P44.

A shape is (vertices, edges, faces): vertices are points, edges are
(kind, start, end, params), faces are (surface spec, loops, sense) with loops
(type, ((edge, sense), ...)) and a surface spec is (maker name, args, kwargs)
of yapcad.analytic_surfaces.
"""
import itertools
import math

PI = math.pi


def sub(a, b):
    return tuple(a[i] - b[i] for i in range(3))


def box(lo, hi):
    vs = [tuple((lo, hi)[b][i] for i, b in enumerate(bits)) for bits in itertools.product((0, 1), repeat=3)]
    bits = list(itertools.product((0, 1), repeat=3))
    es = [("line", a, b, ()) for a in range(8) for b in range(a + 1, 8) if sum(x != y for x, y in zip(bits[a], bits[b])) == 1]
    where = {frozenset((a, b)): i for i, (_, a, b, _) in enumerate(es)}
    fs = []
    for ax in range(3):
        for side in (0, 1):
            p, q = [i for i in range(3) if i != ax]
            ring = []
            for x, y in ((0, 0), (1, 0), (1, 1), (0, 1)):
                b = [0, 0, 0]
                b[ax], b[p], b[q] = side, x, y
                ring.append(bits.index(tuple(b)))
            if (ax == 1) != (side == 0):
                ring.reverse()
            loop = tuple((where[frozenset(e)], es[where[frozenset(e)]][1] == e[0]) for e in zip(ring, ring[1:] + ring[:1]))
            c = [(l + h) / 2 for l, h in zip(lo, hi)]
            c[ax] = (lo, hi)[side][ax]
            n = [0, 0, 0]
            n[ax] = 1 if side else -1
            # the half sizes along the plane's own axes, whichever those are
            half = [(h - l) / 2 for l, h in zip(lo, hi)]
            fs.append((("plane", tuple(c), tuple(n), tuple(half)), (("outer", loop),), True))
    return vs, es, fs


def tetra(o, s):
    vs = [o, (o[0] + s, o[1], o[2]), (o[0], o[1] + s, o[2]), (o[0], o[1], o[2] + s)]
    es = [("line", a, b, ()) for a, b in itertools.combinations(range(4), 2)]
    where = {(a, b): i for i, (_, a, b, _) in enumerate(es)}
    fs = []
    for ring in ((0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)):
        loop = tuple((where[tuple(sorted(e))], e[0] < e[1]) for e in zip(ring, ring[1:] + ring[:1]))
        a, b, c = (vs[i] for i in ring)
        u, v = sub(b, a), sub(c, a)
        n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        fs.append((("plane", a, n, (s, s, s)), (("outer", loop),), True))
    return vs, es, fs


def cylinder(o, r, hgt):
    vs = [(o[0] + r, o[1], o[2]), (o[0] + r, o[1], o[2] + hgt)]
    es = [("circle", 0, 0, (o, (0, 0, 1), r)), ("circle", 1, 1, ((o[0], o[1], o[2] + hgt), (0, 0, 1), r)), ("line", 0, 1, ())]
    fs = [
        (("plane", o, (0, 0, -1), (r, r, r)), (("outer", ((0, False),)),), True),
        (("plane", (o[0], o[1], o[2] + hgt), (0, 0, 1), (r, r, r)), (("outer", ((1, True),)),), True),
        (("cylinder", o, (0, 0, 1), r, hgt), (("outer", ((0, True), (2, True), (1, False), (2, False))),), True),
    ]
    return vs, es, fs


def ball(o, r):
    vs = [(o[0], o[1], o[2] - r), (o[0], o[1], o[2] + r)]
    es = [("line", 0, 1, ())]
    return vs, es, [(("sphere", o, r), (("outer", ((0, True), (0, False))),), True)]


def ring(o, big, small):
    vs = [(o[0] + big + small, o[1], o[2])]
    es = [("circle", 0, 0, (o, (0, 0, 1), big + small)), ("circle", 0, 0, ((o[0] + big, o[1], o[2]), (0, 1, 0), small))]
    return vs, es, [(("torus", o, (0, 0, 1), big, small), (("outer", ((0, True), (1, True), (0, False), (1, False))),), True)]


def tunnel(lo, hi, margin):
    """A box with a square hole right through it along z."""
    vs, es, fs = box(lo, hi)
    li = (lo[0] + margin, lo[1] + margin, lo[2])
    hi2 = (hi[0] - margin, hi[1] - margin, hi[2])
    v2, e2, f2 = box(li, hi2)
    ne = len(es)
    vs = vs + v2
    es = es + [(k, a + 8, b + 8, p) for k, a, b, p in e2]
    out = []
    shift = lambda loop: tuple((e + ne, not s) for e, s in reversed(loop))
    for i, (s, loops, sense) in enumerate(fs):
        if i >= 4:
            loops = loops + (("inner", shift(f2[i][1][0][1])),)
        out.append((s, loops, sense))
    for s, loops, sense in f2[:4]:
        out.append((s, (("outer", shift(loops[0][1])),), not sense))
    return vs, es, out


def join(*shapes):
    vs, es, fs = [], [], []
    for a, b, c in shapes:
        nv, ne = len(vs), len(es)
        vs += a
        es += [(k, s + nv, t + nv, p) for k, s, t, p in b]
        fs += [(s, tuple((k, tuple((e + ne, d) for e, d in loop)) for k, loop in loops), sense) for s, loops, sense in c]
    return vs, es, fs


def hinge(s):
    """Two tetrahedra that share the edge between their vertices 0 and 3."""
    a = tetra((0, 0, 0), s)
    vs = list(a[0]) + [(-s, 0, 0), (0, -s, 0)]
    names = {0: 0, 1: 4, 2: 5, 3: 3}
    es = list(a[1])
    ids = {}
    for i, (k, p, q, _) in enumerate(a[1]):
        e = (names[p], names[q])
        if set(e) == {0, 3}:
            ids[i] = 2
        else:
            ids[i] = len(es)
            es.append((k, *e, ()))
    fs = list(a[2]) + [(("plane", (0, 0, 0), (0, 0, 1), (s, s, s)), tuple((k, tuple((ids[e], d) for e, d in loop)) for k, loop in loops), sense) for _, loops, sense in a[2]]
    return vs, es, fs


def surface(spec):
    from yapcad import analytic_surfaces as A
    k = spec[0]
    if k == "plane":
        _, o, n, half = spec
        s = A.plane_surface(list(o), list(n))
        m = s[2]
        ur, vr = (sum(abs(m[a][i]) * half[i] for i in range(3)) for a in ("u_axis", "v_axis"))
        return A.plane_surface(list(o), list(n), u_range=(-ur, ur), v_range=(-vr, vr))
    if k == "sphere":
        return A.sphere_surface(list(spec[1]), spec[2])
    if k == "cylinder":
        return A.cylinder_surface(list(spec[1]), list(spec[2]), spec[3], v_range=(0, spec[4]))
    if k == "torus":
        return A.torus_surface(list(spec[1]), list(spec[2]), spec[3], spec[4])
    return spec[1]()


def edge(nb, spec, vids):
    k, a, b, p = spec
    if k == "line":
        return nb.line_edge(vids[a], vids[b])
    if k == "circle":
        return nb.circle_edge(vids[a], vids[b], list(p[0]), list(p[1]), p[2])
    raise AssertionError(k)


class Built:
    """The graph, and the ids of its parts by their index in the shape."""

    def __init__(self, shape, by_object=True):
        from yapcad import native_brep as nb
        self.nb, self.shape = nb, shape
        self.g = g = nb.TopologyGraph()
        vs, es, fs = shape
        self.vobj = [nb.brep_vertex(list(v)) for v in vs]
        self.v = [g.add_vertex(v) for v in self.vobj]
        refs = self.vobj if by_object else self.v
        self.e = [g.add_edge(edge(nb, e, refs)) for e in es]
        self.f = []
        self.fobj = []
        for s, loops, sense in fs:
            ls = []
            for kind, uses in loops:
                ts = []
                for e, d in uses:
                    t = nb.brep_trim(g.edges[self.e[e]] if by_object else self.e[e], sense=d)
                    g.add_trim(t)
                    ts.append(t)
                lo = nb.brep_loop(ts, loop_type=kind)
                g.add_loop(lo)
                ls.append(lo)
            f = nb.brep_face(surface(s), ls, sense=sense)
            self.fobj.append(f)
            self.f.append(g.add_face(f))
