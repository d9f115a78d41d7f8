"""P14: transforms of figures, surfaces and solids move exactly their points."""
import copy
import itertools
import math

from mc import fig2 as F
from mc.core import Out, h, require

META = {
    "id": "P14",
    "title": "Transforms move every point of a figure, surface or solid as one",
    "statement": "`translate`, `rotate`, `scale`, `mirror` and `transform`, alone or in sequence, give a figure whose sample at any parameter is the transformed sample of the original (so joined elements stay joined), or refuse it; a scaling or rotation center stays put, and arguments are unchanged. On surfaces and solids they move every vertex, keep the triangles and turn normals and winding with them, so that faces still point outwards and the volume changes by the determinant. `Matrix` products, inverses, rows and columns agree with linear algebra, transposed or not.",
    "over": ["inputs", "operation sequences"],
    "forall": "every figure of the alphabet under every sequence of up to two transforms of the transform alphabet (three when thorough), every solid under every single transform and selected pairs",
    "why": "The suite transforms a few convenient shapes about the origin; centers, reflections of arcs, negative and partial scale factors and nested lists need particular combinations.",
    "files": ["src/yapcad/geom.py", "src/yapcad/geom3d.py", "src/yapcad/xform.py"],
    "mech": [["figure transforms", "geom.py:translate"], ["mirror of arcs", "geom.py:mirror"], ["scaling of surfaces", "geom3d.py:scalesurface"], ["matrices", "xform.py:Matrix.mul"]],
    "technique": "explicit enumeration of all transform sequences to a bounded depth over figure and solid alphabets on the real functions, with pointwise reference arithmetic",
    "note": "full circles are compared as point sets; arcs under rotations off the Z axis or uneven factors must be refused",
}

US = (0.0, 0.13, 0.25, 0.5, 0.61, 0.75, 0.99, 1.0)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# reference: a transform is ("t", d) ("r", angle, centre, axis) ("s", factors, centre) ("m", plane)

def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return tuple(x / n for x in v)


def turn(v, axis, deg):
    """Rodrigues"""
    k = unit(axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    kx = (k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0])
    kv = sum(a * b for a, b in zip(k, v))
    return tuple(v[i] * c + kx[i] * s + k[i] * kv * (1 - c) for i in range(3))


def factors(t):
    s = t[1]
    return tuple(s[i] if len(s) > i else s[0] for i in range(3))


def ref(t, p):
    k = t[0]
    if k == "t":
        return F.add(p, t[1])
    if k == "r":
        return F.add(turn(F.sub(p, t[2]), t[3], t[1]), t[2])
    if k == "s":
        f = factors(t)
        return tuple(t[2][i] + f[i] * (p[i] - t[2][i]) for i in range(3))
    i = {"yz": 0, "xz": 1, "xy": 2}[t[1]]
    return tuple(-c if j == i else c for j, c in enumerate(p[:3]))


def refn(t, n):
    """unit normal of a face after the transform"""
    k = t[0]
    if k == "t":
        return n
    if k == "r":
        return turn(n, t[3], t[1])
    if k == "s":
        f = factors(t)
        return unit(tuple(n[i] / f[i] for i in range(3)))
    return ref(t, n)


def det(t):
    if t[0] == "s":
        f = factors(t)
        return f[0] * f[1] * f[2]
    return -1.0 if t[0] == "m" else 1.0


def pt(p):
    return list(map(float, p)) + [1.0]


def real(M, t, v):
    k = t[0]
    if k == "t":
        return M.translate(v, pt(t[1]))
    if k == "r":
        return M.rotate(v, t[1], cent=pt(t[2]), axis=pt(t[3]))
    if k == "s":
        return M.scale(v, *t[1], cent=pt(t[2]))
    return M.mirror(v, t[1])


def refusable(t, f):
    """arcs leave the XY plane's orientation or stop being circular"""
    arcs = any(x[0] == "arc" for x in leaves(f))
    if not arcs:
        return False
    if t[0] == "r":
        return unit(t[3]) != (0, 0, 1) or tuple(t[3]) != (0, 0, 1)
    if t[0] == "s":
        f = factors(t)
        return abs(f[0] - f[1]) > 1e-9
    return False


def leaves(f):
    return [f] if f[0] in ("pt", "ln", "arc") else [y for x in F.parts(f) for y in leaves(x)]


def flipped_circle(f):
    return any(F.circle(x) for x in leaves(f))


def judge_fig(case):
    f, ts = case
    from yapcad import geom as G

    v = F.build(f)
    goal = lambda p: p
    for t in ts:
        keep = copy.deepcopy(v)
        try:
            w = real(G, t, v)
        except (ValueError, NotImplementedError):
            require(refusable(t, f), "%r refused for %r" % (t, f))
            require(v == keep, "%r changed its argument" % (t,))
            return Out("refused")
        require(not refusable(t, f) or t[0] == "r" and tuple(t[3]) == (0, 0, 1), "%r of %r not refused" % (t, f))
        require(v == keep, "%r changed its argument %r" % (t, f))
        goal = (lambda t, goal: lambda p: ref(t, goal(p)))(t, goal)
        v = w
    compare(G, f, v, goal, "%r of %r" % (ts, f))
    return Out("+".join(t[0] for t in ts), [h((f, ts))], len(ts))


def compare(G, f, v, goal, what):
    got = F.parse(v)
    require(shape(got) == shape(f), "%s has another structure: %r" % (what, got))
    span = 1 + max(abs(c) for b in F.bounds(got) + F.bounds(f) for c in b)
    for a, b in zip(leaves(f), leaves(got)):
        if F.circle(a):
            require(F.circle(b), "%s: circle became %r" % (what, b))
            for u in US:
                p = goal(F.sample(a, u)[0])
                require(F.to_figure(b, p) < 1e-6 * span, "%s: %r is not on the circle %r" % (what, p, b))
            continue
        for u in US:
            p, q = goal(F.sample(a, u)[0]), F.sample(b, u)[0]
            require(F.dist(p, q) < 1e-6 * span, "%s: sample %g of element %r is %r, expected %r" % (what, u, a, q, p))
    # and as a whole, with the library's own sampling
    if not flipped_circle(f) and f[0] != "pt" and F.length(f) > 0:
        for u in (0.0, 0.5, 1.0):
            q = G.sample(v, u)
            lens = F.length(f)
            if f[0] == "gl" and abs(F.length(got) / lens * 1 - ratio(f, got)) > 1e-9:
                continue
            if all(abs(F.length(b) * lens - F.length(a) * F.length(got)) < 1e-9 * lens * F.length(got) for a, b in zip(leaves(f), leaves(got))):
                require(any(F.dist(goal(p), q) < 1e-5 * span for p in F.sample(f, u)), "%s: sample(%g) = %r" % (what, u, q))


def ratio(f, g):
    return F.length(g) / F.length(f)


def shape(f):
    if f[0] in ("pt", "ln", "arc"):
        return f[0]
    if f[0] == "ply":
        return ("ply", len(f[1]))
    return ("gl",) + tuple(shape(x) for x in f[1])


def judge_space(case):
    """lines, polys and points off the plane, any axis; also through transform(matrix)"""
    from yapcad import geom as G, xform as X

    f, ts = case
    v = F.build(f)
    M = X.Matrix()
    goal = lambda p: p
    for t in ts:
        v = real(G, t, v)
        goal = (lambda t, goal: lambda p: ref(t, goal(p)))(t, goal)
        M = matrix(X, t).mul(M)
    compare(G, f, v, goal, "%r of %r" % (ts, f))
    if len(ts) > 0 and not any(x[0] == "arc" for x in leaves(f)):
        v0 = F.build(f)
        w = G.transform(v0, M)
        require(v0 == F.build(f), "transform changed its argument")
        compare(G, f, w, goal, "transform by %r of %r" % (ts, f))
    return Out("+".join(t[0] for t in ts), [h((f, ts))], 2 * len(ts))


def matrix(X, t):
    if t[0] == "t":
        return X.Translation(pt(t[1]))
    if t[0] == "r":
        return X.Translation(pt(t[2])).mul(X.Rotation(pt(t[3]), t[1])).mul(X.Translation(pt(t[2]), inverse=True))
    if t[0] == "s":
        return X.Translation(pt(t[2])).mul(X.Scale(*factors(t))).mul(X.Translation(pt(t[2]), inverse=True))
    return X.Scale(*{"yz": (-1, 1, 1), "xz": (1, -1, 1), "xy": (1, 1, -1)}[t[1]])


def judge_mat(case):
    """(a, b, transposed?, transposed?): product of two matrices given by 16 numbers"""
    from yapcad import xform as X

    a, b, ta, tb = case
    def mk(m, tr):
        return X.Matrix([list(m[4 * i:4 * i + 4]) for i in range(4)], tr), [[m[4 * j + i] if tr else m[4 * i + j] for j in range(4)] for i in range(4)]
    A, ra = mk(a, ta)
    B, rb = mk(b, tb)
    rd = lambda M: [[M.get(i, j) for j in range(4)] for i in range(4)]
    require(rd(A) == ra, "matrix %r (transposed=%r) reads %r" % (a, ta, rd(A)))
    for i in range(4):
        require(A.getrow(i) == ra[i] and A.getcol(i) == [r[i] for r in ra], "row or column %d of %r (transposed=%r)" % (i, a, ta))
    prod = [[sum(ra[i][k] * rb[k][j] for k in range(4)) for j in range(4)] for i in range(4)]
    P = A.mul(B)
    close = lambda x, y: all(abs(p - q) < 1e-9 * (1 + abs(q)) for r, s in zip(x, y) for p, q in zip(r, s))
    require(close(rd(P), prod), "product of %r and %r is %r" % (ra, rb, rd(P)))
    for v in ([1, 2, 3, 1], [-4, 0.5, 2, 0]):
        w = [sum(ra[i][k] * v[k] for k in range(4)) for i in range(4)]
        require(close([A.mul(v)], [w]), "%r times %r is %r" % (ra, v, A.mul(v)))
    require(close(rd(A.mul(2.5)), [[2.5 * x for x in r] for r in ra]), "scaled %r" % (ra,))
    C = X.Matrix(A)
    require(rd(C) == ra, "copy of %r (transposed=%r) is %r" % (ra, ta, rd(C)))
    # writes through rows, columns and elements
    for M, base in ((C, ra), (B, rb)):
        R = [list(r) for r in base]
        keepa = rd(A)
        row, col = [9, 8, 7, 6], [1.5, 2.5, 3.5, 4.5]
        M.setrow(1, row)
        R[1] = list(row)
        require(rd(M) == R, "setrow on %r: %r" % (base, rd(M)))
        M.setcol(2, col)
        for i in range(4):
            R[i][2] = col[i]
        require(rd(M) == R, "setcol on %r: %r" % (base, rd(M)))
        M.set(3, 0, 42)
        R[3][0] = 42
        require(rd(M) == R and row == [9, 8, 7, 6] and col == [1.5, 2.5, 3.5, 4.5], "set on %r: %r" % (base, rd(M)))
        require(rd(A) == keepa, "writing to a copy changed the original matrix")
    return Out("matrix", [], 4)


def judge_inv(t):
    """inverse flags and fixed points of the elementary matrices"""
    from yapcad import xform as X

    if t[0] == "t":
        A, B = X.Translation(pt(t[1])), X.Translation(pt(t[1]), inverse=True)
    elif t[0] == "r":
        A, B = X.Rotation(pt(t[3]), t[1]), X.Rotation(pt(t[3]), t[1], inverse=True)
    else:
        A, B = X.Scale(*factors(t)), X.Scale(*factors(t), inverse=True)
        V, W = X.Scale(list(factors(t)) + [1.0]), X.Scale(list(factors(t)) + [1.0], inverse=True)
        for p in ((1, 2, 3),):
            require(A.mul(pt(p)) == V.mul(pt(p)) and B.mul(pt(p)) == W.mul(pt(p)), "Scale by vector differs for %r" % (t,))
    base = (t[0], t[1], (0, 0, 0), t[3]) if t[0] == "r" else ("s", t[1], (0, 0, 0)) if t[0] == "s" else t
    for p in ((0, 0, 0), (1, 2, 3), (-4, 0.5, 7)):
        q = A.mul(pt(p))
        require(F.dist(q, ref(base, p)) < 1e-6 and q[3] == 1, "%r of %r is %r" % (t, p, q))
        require(F.dist(B.mul(q), p) < 1e-6, "inverse of %r does not return %r" % (t, p))
    return Out("inverse", [], 2)


def make(name):
    from yapcad import geom as G, geom3d as D, geom3d_util as U

    if name == "prism":
        return U.prism(2, 3, 4)
    if name == "offprism":
        return U.prism(1, 1, 2, center=pt((3, -2, 1)))
    if name == "sphere":
        return U.sphere(2.0, depth=1)
    if name == "cone":
        return U.conic(1.5, 0.5, 2)
    if name == "tube":
        return U.tube(outer_diameter=4, wall_thickness=0.5, length=3)
    if name == "lshape":
        s, _ = D.poly2surfaceXY([pt(p + (0,)) for p in ((0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (0, 2), (0, 0))])
        return U.extrude(s, 2)
    s, _ = D.poly2surfaceXY([pt(p + (0,)) for p in ((0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (0, 2), (0, 0))])
    return s


def surfs(v):
    return v[1] if v[0] == "solid" else [v]


def tri(s, f, goal=lambda p: p):
    return [goal(s[1][i][:3]) for i in f]


def normal(t):
    a, b = F.sub(t[1], t[0]), F.sub(t[2], t[0])
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def volume(v):
    """signed, by triangles"""
    out = 0.0
    for s in surfs(v):
        for f in s[3]:
            t = tri(s, f)
            out += sum(a * b for a, b in zip(t[0], normal(t))) / 6
    return out


def judge_solid(case):
    from yapcad import geom3d as D

    name, ts = case
    v0 = make(name)
    v = v0
    goal, gn, d = (lambda p: tuple(p[:3])), (lambda n: n), 1.0
    for t in ts:
        keep = copy.deepcopy(v)
        w = real(D, t, v)
        require(v == keep, "%r changed its argument (%s)" % (t, name))
        require(w is not v and not shared(w, v), "%r of %s shares vertices with its argument" % (t, name))
        goal = (lambda t, g: lambda p: ref(t, g(p)))(t, goal)
        gn = (lambda t, g: lambda n: refn(t, g(n)))(t, gn)
        d *= det(t)
        v = w
    what = "%r of %s" % (ts, name)
    require(D.issolid(v, fast=False) if v[0] == "solid" else D.issurface(v, fast=False), what + " is not valid")
    require(v[2:4] == v0[2:4] if v[0] == "solid" else v[4:] == v0[4:], what + " lost data")
    if len(v0) > 4 and v0[0] == "solid":
        require(all(v[4].get(k) == x for k, x in v0[4].items()), what + " lost metadata")
    for a, b in zip(surfs(v0), surfs(v)):
        require(len(a[1]) == len(b[1]) and len(a[3]) == len(b[3]), what + " changed its mesh")
        for p, q in zip(a[1], b[1]):
            require(F.dist(goal(p), q) < 1e-6 and q[3] == 1, "%s: vertex %r is %r, expected %r" % (what, p, q, goal(p)))
        for n, m in zip(a[2], b[2]):
            if a[0] == "surface" and any(n[:3]):
                want = gn(unit(n[:3]))
                require(F.dist(want, m) < 1e-5, "%s: normal %r is %r, expected %r" % (what, n, m, want))
        for f, g in zip(a[3], b[3]):
            require(sorted(f) == sorted(g), "%s: face %r became %r" % (what, f, g))
            ta, tb = normal(tri(a, f)), normal(tri(b, g))
            want = gn(unit(ta))
            require(F.dist(want, unit(tb)) < 1e-4, "%s: face %r points to %r, expected %r" % (what, f, unit(tb), want))
    if v[0] == "solid":
        a, b = volume(v0), volume(v)
        require(abs(b - a * abs(d)) < 1e-6 * (1 + abs(b)), "%s: volume %g from %g" % (what, b, a))
        require(abs(D.volumeof(v) - abs(b)) < 1e-6 * (1 + abs(b)), "%s: volumeof %g" % (what, D.volumeof(v)))
        box = D.bbox(v)
        ps = [q for s in surfs(v) for q in s[1]]
        for i in range(3):
            require(abs(box[0][i] - min(p[i] for p in ps)) < 1e-4 and abs(box[1][i] - max(p[i] for p in ps)) < 1e-4, "%s: bounding box %r" % (what, box))
            require(abs(D.center(v)[i] - (box[0][i] + box[1][i]) / 2) < 1e-9, what + ": center")
    return Out("+".join(t[0] for t in ts), [h(case)], len(ts))


def shared(a, b):
    ids = {id(p) for s in surfs(b) for p in s[1]}
    return any(id(p) in ids for s in surfs(a) for p in s[1])


Z = (0, 0, 1)
FLAT = [("t", (0, 0, 0)), ("t", (3, -1, 0)), ("t", (-0.5, 2, 4)),
        ("r", 30, (0, 0, 0), Z), ("r", 90, (0, 0, 0), Z), ("r", -135, (2, 1, 0), Z), ("r", 400, (-1, 0, 0), Z), ("r", 180, (3, 3, 0), Z), ("r", 0, (5, 5, 0), Z),
        ("s", (2.0,), (0, 0, 0)), ("s", (0.5,), (3, -2, 0)), ("s", (-1.0,), (0, 0, 0)), ("s", (-1.5,), (1, 1, 0)), ("s", (2.0, 3.0), (0, 0, 0)), ("s", (1.0, 0.25), (2, 1, 0)), ("s", (2.0, 3.0, 0.5), (1, 2, 0)), ("s", (1.0,), (4, 4, 0)), ("s", (2.0, 2.0, 1.0), (1, 0, 0)),
        ("m", "xz"), ("m", "yz"), ("m", "xy")]
AXES = [("r", 40, (0, 0, 0), (1, 0, 0)), ("r", 90, (1, 2, 3), (0, 1, 0)), ("r", 120, (0, 0, 0), (1, 1, 1)), ("r", -70, (2, 0, -1), (1, -2, 0.5)), ("r", 180, (0, 1, 0), (0, 0, -1)), ("r", 90, (0, 0, 5), (0, 0, 3)),
        ("s", (2.0, 3.0, 4.0), (1, 1, 1)), ("s", (-2.0, 1.0, 1.5), (0, 0, 2)), ("s", (-1.0, -1.0, 1.0), (0, 0, 0)), ("s", (2.0, 1.0, 1.0), (0, 3, 0)), ("t", (1, 2, 3))]


def figures():
    out = [("pt", 1, 2, 0), ("ln", (0, 0, 0), (4, 1, 0)), ("ln", (-2, 5, 0), (-2, -1, 0))]
    for s, e in ((0, 360), (0, 90), (30, 200), (300, 60), (180, 0), (90, 360), (-45, 45), (270, 90)):
        for rev in (False, True):
            out.append(("arc", (1, 2, 0), 1.5, s, e, rev))
    out.append(("arc", (0, 0, 3), 2.0, 10, 80, False))
    out += [("ply", ((0, 0, 0), (3, 0, 0), (3, 2, 0))), ("ply", ((0, 0, 0), (3, 0, 0), (3, 2, 0), (0, 2, 0), (0, 0, 0))), ("ply", ((1, 1, 0), (-2, 4, 0), (0, -3, 0), (5, 5, 0), (1, 1, 0)))]
    stad = (("ln", (-2, -1, 0), (2, -1, 0)), ("arc", (2, 0, 0), 1, 270, 90, False), ("ln", (2, 1, 0), (-2, 1, 0)), ("arc", (-2, 0, 0), 1, 90, 270, False))
    tooth = (("ln", (0, 0, 0), (6, 0, 0)), ("ln", (6, 0, 0), (6, 3, 0)), ("ln", (6, 3, 0), (4, 3, 0)), ("arc", (3, 3, 0), 1, 180, 360, True), ("ln", (2, 3, 0), (0, 3, 0)), ("ln", (0, 3, 0), (0, 0, 0)))
    out += [("gl", stad), ("gl", tooth), ("gl", (("gl", stad[:2]),) + stad[2:]), ("gl", (("gl", stad), ("arc", (0, 0, 0), 0.5, 0, 360, True), ("pt", 1, 0, 0))), ("gl", (out[1], out[-1])), ("gl", (("gl", (("gl", (out[6],)),)),))]
    return out


def spatial():
    return [("pt", 1, 2, 3), ("ln", (0, 0, 1), (4, 1, -2)), ("ply", ((0, 0, 0), (3, 0, 1), (3, 2, 2))), ("ply", ((0, 0, 1), (3, 0, 1), (3, 2, 2), (0, 0, 1))),
            ("gl", (("ln", (1, 2, 3), (3, 2, 1)), ("gl", (("ply", ((3, 2, 1), (0, 0, 0), (1, 0, 5))),)), ("pt", 4, 4, 4)))]


def seqs(alpha, n):
    for k in range(1, n + 1):
        yield from itertools.product(alpha, repeat=k)


def mats():
    e = (1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1)
    a = tuple(range(1, 17))
    b = (2, -1, 0, 5, 0.5, 3, 1, -2, 7, 0, -4, 1, 0, 0, 0, 1)
    c = (0, 1, 0, 0, -1, 0, 0, 0, 0, 0, 1, 9, 0, 0, 0, 1)
    for x, y in itertools.product((e, a, b, c), repeat=2):
        for ta in (False, True):
            for tb in (False, True):
                yield (x, y, ta, tb)


def run(ctx):
    n = ctx.pick(2, 3)
    space = FLAT + AXES
    solids = ("prism", "offprism", "sphere", "cone", "tube", "lshape", "face")
    sp = [(t,) for t in space] + [(a, b) for a in AXES for b in space] + [(a, b) for a in FLAT[-3:] for b in AXES]
    ctx.explore(judge, [
        ("fig", ((f, ts) for f in figures() for ts in seqs(FLAT, n))),
        ("fig", ((f, (t,)) for f in figures() for t in AXES[:6])),
        ("space", ((f, ts) for f in spatial() for ts in seqs(space, 2))),
        ("mat", mats()),
        ("inv", (t for t in space if t[0] in "trs")),
        ("solid", ((s, ts) for s in solids for ts in sp), 8),
    ], batch=128)
    ctx.assumptions.append("a rotation of an arc about a Z axis that is not the unit vector may be refused; full circles are compared as point sets")
