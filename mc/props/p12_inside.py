"""P12: the planar inside tests agree with the figure's own point set."""
import copy
import itertools
import math
from fractions import Fraction as Q

from mc import fig2 as F
from mc.core import Out, h, require

META = {
    "id": "P12",
    "title": "The planar inside tests decide membership exactly",
    "statement": "`isinsideXY` is true for exactly the points within epsilon of a point, line, open polyline or open arc, within a circle, and inside (by the even-odd rule) or on the boundary of a closed polygon or a geometry list of closed outlines with holes, whatever the vertex a figure starts from, its direction, its nesting, or whether the tested point lies in line with vertices and joints. The triangle and convex polygon tests agree with it. No argument is changed.",
    "over": ["inputs"],
    "forall": "every closed polygon (self-crossing ones too) over a point grid and every outline of a list alphabet, against a lattice of points in line with its vertices and points just beside its boundary",
    "why": "Even-odd tests fail only for points whose ray grazes a vertex, joint or tangent; the suite tests a few points of a few convex shapes.",
    "files": ["src/yapcad/geom.py"],
    "mech": [["dispatch", "geom.py:isinsideXY"], ["polygons", "geom.py:isinsidepolyXY"], ["geometry lists", "geom.py:isinsidegeomlistXY"], ["convex polygons", "geom.py:isInsideConvexPolyXY"]],
    "technique": "explicit enumeration of all grid polygons and an outline alphabet against all lattice probe points on the real functions, judged by exact rational even-odd membership",
    "note": "polygons of up to 4 (quick) or 5 (thorough) corners on a 3x3 grid; points between epsilon and 1e-4 from a boundary are not judged",
}

BAND = 1e-4


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def evenodd(pts, p):
    """crossings of the vertical ray above p with a closed point loop, exact"""
    x, y = Q(p[0]), Q(p[1])
    n = 0
    for a, b in zip(pts, pts[1:]):
        ax, ay, bx, by = Q(a[0]), Q(a[1]), Q(b[0]), Q(b[1])
        if (ax <= x) != (bx <= x):
            if ay + (by - ay) * (x - ax) / (bx - ax) > y:
                n += 1
    return n % 2 == 1


def flat(f):
    """point loops approximating the figure's elements, as one list of segments"""
    k = f[0]
    if k == "pt":
        return []
    if k == "ln":
        return [(f[1], f[2])]
    if k == "arc":
        n = max(2, int(F.sweep(f)[1]))
        pts = [F.sample(f, i / n)[0] for i in range(n + 1)]
        if F.circle(f):
            pts[-1] = pts[0]
        return list(zip(pts, pts[1:]))
    return [s for x in F.parts(f) for s in flat(x)]


def parity(segs, p):
    x, y = p[0] + 1.37e-7, p[1]  # keep the ray clear of joints
    n = 0
    for a, b in segs:
        if (a[0] <= x) != (b[0] <= x) and a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0]) > y:
            n += 1
    return n % 2 == 1


def probe(f, pts, want, band=BAND):
    from yapcad import geom as G

    v = F.build(f)
    keep = copy.deepcopy(v)
    n = m = 0
    for p in pts:
        d = F.to_figure(f, p)
        if 1e-6 < d < band:
            continue
        q = list(map(float, p)) + [1.0]
        w = True if d <= 1e-6 else bool(want(p))
        got = G.isinsideXY(v, q)
        require(got is w or got == w, "isinsideXY(%r, %r) = %r, expected %r" % (f, tuple(p), got, w))
        n += 1
        m += w
    require(v == keep, "isinsideXY changed the figure %r" % (f,))
    return Out("some inside" if m else "none inside", [], n)


def judge_poly(case):
    """closed polygon given by its corners: all lattice points and points beside its edges"""
    loop = case + case[:1]
    f = ("ply", tuple((x, y, 0) for x, y in loop))
    lat = [(x / 2, y / 2, 0) for x in range(-1, 10) for y in range(-1, 10)]
    return probe(f, lat + beside(f), lambda p: evenodd(loop, p))


def beside(f, off=2e-3):
    out = []
    for a, b in zip(f[1], f[1][1:]):
        d = F.dist(a, b)
        nx, ny = -(b[1] - a[1]) / d, (b[0] - a[0]) / d
        for t in (0.0, 0.3, 0.5, 1.0):
            q = F.lerp(a, b, t)
            out += [(q[0] + s * nx * off, q[1] + s * ny * off, 0) for s in (-1, 0, 1)]
    return out


def around(f):
    lo, hi = F.bounds(f)
    xs = sorted({lo[0], hi[0], (lo[0] + hi[0]) / 2, lo[0] - 1, hi[0] + 1} | {lo[0] + (hi[0] - lo[0]) * k / 10 for k in range(1, 10)} | {c[0] for c in corners(f)})
    ys = sorted({lo[1], hi[1], (lo[1] + hi[1]) / 2, lo[1] - 1, hi[1] + 1} | {lo[1] + (hi[1] - lo[1]) * k / 10 for k in range(1, 10)} | {c[1] for c in corners(f)})
    pts = [(x, y, 0) for x in xs for y in ys]
    for u in range(41):
        for e in leaves(f):
            if F.length(e) == 0:
                continue
            for q in F.sample(e, u / 40):
                pts.append(q)
                for k in range(6):
                    a = math.radians(60 * k + 7)
                    pts.append((q[0] + 3e-3 * math.cos(a), q[1] + 3e-3 * math.sin(a), 0))
    return pts


def leaves(f):
    return [f] if f[0] in ("pt", "ln", "arc") else [y for x in F.parts(f) for y in leaves(x)]


def corners(f):
    return [p for e in leaves(f) for p in ([e[1:4]] if e[0] == "pt" else [e[1], e[2]] if e[0] == "ln" else [e[1], F.sample(e, 0)[0], F.sample(e, 1)[0]])]


def judge_nudged(case):
    """polygon closed only to within epsilon"""
    c, d = case
    last = (c[0][0] + d, c[0][1] - d, 0)
    f = ("ply", tuple((x, y, 0) for x, y in c) + (last,))
    return probe(f, [(x / 2, y / 2, 0) for x in range(-1, 10) for y in range(-1, 10)], lambda p: evenodd(c + c[:1], p))


def judge_list(case):
    """figure made of closed outlines"""
    f = case
    segs = flat(f)
    return probe(f, around(f), lambda p: parity(segs, p), 5e-4)


def judge_open(case):
    """points, lines, polylines, arcs and circles by themselves"""
    f = case
    if F.circle(f):
        c, r = f[1], f[2]
        return probe(f, around(f) + [c], lambda p: math.hypot(p[0] - c[0], p[1] - c[1]) <= r)
    if f[0] == "pt":
        return probe(f, [(f[1] + i, f[2] + j, 0) for i in (-1, 0, 2e-3, 1) for j in (-1, 0, 2e-3, 1)], lambda p: False)
    return probe(f, around(f), lambda p: False)


def judge_convex(case):
    """triangle and convex tests, open and closed lists, both directions"""
    from yapcad import geom as G

    loop = tuple(case) + tuple(case[:1])
    f = ("ply", tuple((x, y, 0) for x, y in loop))
    n = 0
    lat = [(x / 2, y / 2, 0) for x in range(-1, 10) for y in range(-1, 10)] + beside(f)
    open_ = F.build(f)[:-1]
    forms = [open_, open_ + [list(open_[0])]]
    for p in lat:
        d = F.to_figure(f, p)
        if d < BAND and len(case) > 3 or 1e-9 < d < BAND:
            continue
        w = d <= 1e-9 or evenodd(loop, p)
        q = list(map(float, p)) + [1.0]
        for v in forms:
            keep = copy.deepcopy(v)
            if len(case) == 3:
                got = G.isInsideTriangleXY(q, v)
                if d > BAND:
                    require(bool(got) == w, "isInsideTriangleXY(%r, %r) = %r" % (p, case, got))
            got = G.isInsideConvexPolyXY(q, v)
            if d > BAND:
                require(bool(got) == w, "isInsideConvexPolyXY(%r, %r) = %r" % (p, case, got))
            require(v == keep, "convex test changed its argument %r" % (case,))
            n += 1
    return Out("convex", [], n)


def area2(ps):
    return sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(ps, ps[1:] + ps[:1]))


def polys(n, k):
    g = [(x, y) for x in range(0, 2 * k, 2) for y in range(0, 2 * k, 2)]
    for c in itertools.permutations(g, n):
        yield c


def pentagons():
    """5-corner closed polygons up to the first corner's choice"""
    g = [(x, y) for x in (0, 2, 4) for y in (0, 2, 4)]
    for c in itertools.permutations(g, 5):
        yield c


def convex():
    g = [(x, y) for x in (0, 2, 4) for y in (0, 2, 4)] + [(1, 3), (3, 1)]
    for n in (3, 4, 5):
        for c in itertools.permutations(g, n):
            t = [(b[0] - a[0]) * (d[1] - b[1]) - (b[1] - a[1]) * (d[0] - b[0]) for a, b, d in zip(c, c[1:] + c[:1], c[2:] + c[:2])]
            if (all(x > 0 for x in t) or all(x < 0 for x in t)) and (n < 5 or abs(sum(turn(c))) < 361):
                yield c


def turn(c):
    out = []
    for a, b, d in zip(c, c[1:] + c[:1], c[2:] + c[:2]):
        x = math.degrees(math.atan2(d[1] - b[1], d[0] - b[0]) - math.atan2(b[1] - a[1], b[0] - a[0]))
        out.append((x + 180) % 360 - 180)
    return out


def rrect(x, y, w, hh, r, cw=False):
    e = (("ln", (x + r, y, 0), (x + w - r, y, 0)), ("arc", (x + w - r, y + r, 0), r, 270, 360, False),
         ("ln", (x + w, y + r, 0), (x + w, y + hh - r, 0)), ("arc", (x + w - r, y + hh - r, 0), r, 0, 90, False),
         ("ln", (x + w - r, y + hh, 0), (x + r, y + hh, 0)), ("arc", (x + r, y + hh - r, 0), r, 90, 180, False),
         ("ln", (x, y + hh - r, 0), (x, y + r, 0)), ("arc", (x + r, y + r, 0), r, 180, 270, False))
    e = tuple(x for x in e if F.length(x) > 0)
    return tuple(F.reverse(x) for x in reversed(e)) if cw else e


def dshape(x, y, r):
    return (("ln", (x, y - r, 0), (x, y + r, 0)), ("arc", (x, y, 0), r, 270, 90, True))


def lens():
    a = math.degrees(math.acos(0.6))
    return (("arc", (-3, 0, 0), 5, 360 - a, a, False), ("arc", (3, 0, 0), 5, 180 - a, 180 + a, False))


def pac():
    return (("ln", (0, 0, 0), (3 * math.cos(math.pi / 6), 1.5, 0)), ("arc", (0, 0, 0), 3, 30, 330, False), ("ln", (3 * math.cos(math.pi / 6), -1.5, 0), (0, 0, 0)))


def tooth():
    # concave: an inward half circle in the top edge, tangent heights meet corners
    return (("ln", (0, 0, 0), (6, 0, 0)), ("ln", (6, 0, 0), (6, 3, 0)), ("ln", (6, 3, 0), (4, 3, 0)), ("arc", (3, 3, 0), 1, 180, 360, True), ("ln", (2, 3, 0), (0, 3, 0)), ("ln", (0, 3, 0), (0, 0, 0)))


def stadium(y=0):
    return (("ln", (-2, y - 1, 0), (2, y - 1, 0)), ("arc", (2, y, 0), 1, 270, 90, False), ("ln", (2, y + 1, 0), (-2, y + 1, 0)), ("arc", (-2, y, 0), 1, 90, 270, False))


def circ(x, y, r, rev=False):
    return ("arc", (x, y, 0), r, 0, 360, rev)


def loop(*ps):
    return ("ply", tuple((x, y, 0) for x, y in ps + ps[:1]))


def outlines():
    base = [rrect(0, 0, 6, 4, 1), rrect(0, 0, 4, 4, 2), dshape(0, 0, 2), lens(), pac(), tooth(), stadium(),
            tuple(("ln", a + (0,), b + (0,)) for a, b in (((0, 0), (5, 0)), ((5, 0), (5, 2)), ((5, 2), (2, 2)), ((2, 2), (2, 5)), ((2, 5), (0, 5)), ((0, 5), (0, 0))))]
    for e in base:
        yield e


def lists(ctx):
    shift = [(0, 0, 0), (1, -3, 0), (-2.5, 0.75, 0), (0.1, 0.2, 0)]
    from mc.props.p11_intersect import move
    for e in outlines():
        n = len(e)
        for k in range(n):
            for rev in (False, True):
                r = e[k:] + e[:k]
                if rev:
                    r = tuple(F.reverse(x) for x in reversed(r))
                for s in shift if ctx.thorough or k == 0 else shift[:1]:
                    yield move(("gl", r), s)
        # nesting: first half as a sublist; the outline twice nested; polys among lines
        yield ("gl", (("gl", e[:n // 2]),) + e[n // 2:])
        yield ("gl", (("gl", (("gl", e),)),))
        yield ("gl", e + (("pt", 1, 1, 0),))
    holes = [circ(3, 2, 1), circ(3, 2, 1, True), loop((2, 1), (4, 1), (4, 3), (2, 3)), loop((2, 1), (2, 3), (4, 3)), ("gl", stad(3, 2)), ("gl", rrect(2, 1, 2, 2, 0.5, True))]
    outers = [("gl", rrect(0, 0, 6, 4, 1)), loop((0, 0), (6, 0), (6, 4), (0, 4)), loop((0, 0), (0, 4), (6, 4), (6, 0)), circ(3, 2, 3.5), ("gl", rrect(0, 0, 6, 4, 2))]
    for o in outers:
        for a in holes:
            yield ("gl", (o, a))
            yield ("gl", (a, o))
            yield ("gl", (("gl", (o,)), ("gl", (a,))))
            if o[0] == "gl":
                yield ("gl", o[1] + (a,))
                yield ("gl", (a,) + o[1])
            # island inside the hole, and a separate outline in line with the first
            yield ("gl", (o, a, circ(3, 2, 0.4)))
            yield ("gl", (o, a, move(a, (8, 0, 0))))
            yield ("gl", (move(o, (-9, 2, 0)), a, circ(3, 2, 0.4), move(a, (8, 1, 0))))
    for a, b in itertools.product(holes, holes):
        # two overlapping outlines: the common part is outside
        yield ("gl", (a, move(b, (1.5, 0.5, 0))))


def stad(x, y):
    from mc.props.p11_intersect import move
    return tuple(move(move(e, (x, y, 0)), (0, 0, 0)) for e in (("ln", (-.5, -.75, 0), (.5, -.75, 0)), ("arc", (.5, 0, 0), .75, 270, 90, False), ("ln", (.5, .75, 0), (-.5, .75, 0)), ("arc", (-.5, 0, 0), .75, 90, 270, False)))


def opens():
    from mc.props.p11_intersect import lines
    for l in lines(60):
        yield l
    for c, r in (((0, 0, 0), 2.0), ((1.5, 1, 0), 2.5), ((0.1, 0.2, 0), 0.3), ((-30, 10, 0), 12)):
        for s, e in ((0, 360), (0, 90), (45, 180), (200, 20), (300, 110), (-60, 75), (90, 360), (180, 0), (350, 340), (10, 20), (725, 800), (270, 630.5)):
            for sr in (False, True):
                yield ("arc", c, r, s, e, sr)
    g = [(x, y, 0) for x in (0, 2, 4) for y in (0, 2, 4)]
    for c in itertools.permutations(g, 3):
        yield ("ply", c)
    for c in itertools.permutations(g[::2] + g[1:2], 4):
        yield ("ply", c)
    for p in g:
        yield ("pt",) + p


def run(ctx):
    ps = [polys(3, 3), polys(4, 3), pentagons()]
    drivers = [("poly", p) for p in (ps if ctx.thorough else [ps[0], (c for c in ps[1] if c[1] < c[3])])]
    if not ctx.thorough:
        # each cyclic order of 5 corners once, starting at its least corner
        drivers.append(("poly", (c for c in pentagons() if c[0] == min(c) and c[1] < c[-1])))
    ctx.explore(judge, drivers + [
        ("list", lists(ctx), 4),
        ("nudged", ((c, d) for c in itertools.chain(polys(3, 3), [c for c in polys(4, 3) if c[0] == min(c)]) for d in (1e-15, 1e-9, -2e-6)), 32),
        ("open", opens(), 8),
        ("convex", convex()),
    ], batch=16)
    ctx.assumptions.append("points between epsilon and 1e-4 (lists: 5e-4) from a boundary are not judged; every list in the alphabet is made of closed outlines")
