"""P11: intersections of planar figures are exactly their common points."""
import copy
import itertools
import math

from mc import fig2 as F
from mc.core import Out, h, require

META = {
    "id": "P11",
    "title": "Intersections of planar figures are exactly their common points",
    "statement": "For any two coplanar lines, arcs, circles, polylines, polygons or geometry lists, `intersectXY` in its default mode returns every transversal common point and nothing else; with `inside=False` it works on the infinite lines and full circles. With `params=True` the paired parameters name one point on both figures, in argument order, and those in 0..1 are the same intersections. The closest point, distance and parameter on a line, the common tangents of circles and the tangents from a point to a circle are the true ones, and no argument is changed.",
    "over": ["inputs"],
    "forall": "every ordered pair of figures from the stated alphabets of lines, arcs, polys and lists (including nested ones), in both modes",
    "why": "The suite intersects a handful of figures; lost points at a line's end, arcs that wrap through zero, swapped or shared parameter lists and lists inside lists need particular pairs.",
    "files": ["src/yapcad/geom.py"],
    "mech": [["line and arc intersection", "geom.py:_lineArcIntersectXY"], ["arc and arc intersection", "geom.py:_arcArcIntersectXY"], ["figure dispatch", "geom.py:intersectXY"], ["list intersection", "geom.py:intersectGeomListXY"]],
    "technique": "explicit enumeration of all ordered figure pairs over finite alphabets on the real functions, judged by independent analytic intersection with a band around degenerate contacts",
    "note": "all pairs of the grid lines and arcs, and of a list alphabet; contacts within 1e-4 of tangency or an arc's end may be reported or not",
}

BAND = 1e-4
TOL = 2e-5


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def prims(f):
    if f[0] in ("ln", "arc"):
        return [f]
    if f[0] == "pt":
        return []
    return [p for x in F.parts(f) for p in prims(x)]


def ln_ln(a, b):
    """[(point, u, v)] of the infinite lines, or None when parallel"""
    p, q = a[1], b[1]
    r, s = F.sub(a[2], a[1]), F.sub(b[2], b[1])
    den = r[0] * s[1] - r[1] * s[0]
    if abs(den) < 1e-7 * math.hypot(*r[:2]) * math.hypot(*s[:2]):
        return None
    w = F.sub(q, p)
    u = (w[0] * s[1] - w[1] * s[0]) / den
    v = (w[0] * r[1] - w[1] * r[0]) / den
    return [(F.lerp(a[1], a[2], u), u, v)]


def arc_u(f, p):
    """parameter of a point of the circle, nearest to the arc's domain"""
    s, d = F.sweep(f)
    a = (math.degrees(math.atan2(p[1] - f[1][1], p[0] - f[1][0])) - s) % 360.0
    if d < 360 and a > d + (360 - d) / 2:
        a -= 360.0
    u = a / d
    return 1 - u if f[5] else u


def ln_arc(a, b):
    """(points, tangent?)"""
    p, v = a[1], F.sub(a[2], a[1])
    n = math.hypot(v[0], v[1])
    d = (v[0] / n, v[1] / n)
    w = (b[1][0] - p[0], b[1][1] - p[1])
    t = w[0] * d[0] + w[1] * d[1]
    k = w[0] * d[1] - w[1] * d[0]
    gap = b[2] - abs(k)
    if gap < -BAND:
        return [], False
    hh = math.sqrt(max(0.0, b[2] ** 2 - k * k))
    pts = []
    for x in (t - hh, t + hh):
        q = (p[0] + d[0] * x, p[1] + d[1] * x, p[2])
        pts.append((q, x / n, arc_u(b, q)))
    return pts, gap < BAND


def arc_arc(a, b):
    c, e = a[1], b[1]
    d = math.hypot(e[0] - c[0], e[1] - c[1])
    r, s = a[2], b[2]
    if d < BAND:
        return [], abs(r - s) < BAND
    gap = min(r + s - d, d - abs(r - s))
    if gap < -BAND:
        return [], False
    x = (r * r - s * s + d * d) / (2 * d)
    y = math.sqrt(max(0.0, r * r - x * x))
    ex, ey = (e[0] - c[0]) / d, (e[1] - c[1]) / d
    pts = []
    for sg in (1, -1):
        q = (c[0] + ex * x - sg * ey * y, c[1] + ey * x + sg * ex * y, c[2])
        pts.append((q, arc_u(a, q), arc_u(b, q)))
    return pts, gap < BAND * max(1, 1)


def cross(a, b):
    """(candidates [(point, u, v)], degenerate)"""
    if a[0] == "ln" and b[0] == "ln":
        r = ln_ln(a, b)
        return (r, False) if r is not None else ([], True)
    if a[0] == "ln":
        return ln_arc(a, b)
    if b[0] == "ln":
        pts, t = ln_arc(b, a)
        return [(p, v, u) for p, u, v in pts], t
    return arc_arc(a, b)


def where(f, u, exact):
    """1 surely inside 0..1, -1 surely outside, 0 at an end"""
    if F.circle(f):
        return 1
    L = F.length(f)
    if exact and -1e-9 <= u <= 1 + 1e-9 and (abs(u) < 1e-12 or abs(u - 1) < 1e-12 or 1e-9 < u < 1 - 1e-9):
        return 1
    slack = BAND / L
    if f[0] == "arc":
        slack = max(slack, 1e-4)
    if slack < u < 1 - slack:
        return 1
    return -1 if u < -slack or u > 1 + slack else 0


def on_grid(f):
    """a line whose own arithmetic is exact"""
    return f[0] == "ln" and all(float(c).is_integer() for p in f[1:3] for c in p)


def reference(f, g):
    """(sure points, possible points, primitive-level candidates)"""
    sure, maybe = [], []
    for a in prims(f):
        for b in prims(g):
            pts, bad = cross(a, b)
            exact = on_grid(a) and on_grid(b)
            for p, u, v in pts:
                wa, wb = where(a, u, exact), where(b, v, exact)
                if wa < 0 or wb < 0:
                    continue
                if wa > 0 and wb > 0 and not bad:
                    sure.append(p)
                maybe.append(p)
    return sure, maybe


def near(p, ps, tol):
    return any(F.dist(p, q) <= tol for q in ps)


def judge_int(case):
    from yapcad import geom as G

    f, g = case
    x, y = F.build(f), F.build(g)
    keep = copy.deepcopy((x, y))
    what = "intersectXY(%r, %r" % case
    what = what[:300]
    sure, maybe = reference(f, g)
    got = G.intersectXY(x, y)
    pts = [] if got is False else got
    require(got is False or isinstance(got, list) and got, "%s) = %r" % (what, got))
    size = 1 + max(abs(c) for q in (f, g) for b in F.bounds(q) for c in b)
    tol = TOL * size
    for p in pts:
        require(isinstance(p, list) and len(p) == 4 and p[3] == 1.0, "%s) returned %r" % (what, p))
        require(F.to_figure(f, p) < tol + 3e-4 and F.to_figure(g, p) < tol + 3e-4, "%s) returned %r, %g off the first and %g off the second figure" % (what, p, F.to_figure(f, p), F.to_figure(g, p)))
        require(near(p, maybe, tol + 2e-2) or overlap(f, g), "%s) returned %r, no intersection" % (what, p))
    for p in sure:
        require(near(p, pts, tol), "%s) misses %r: %r" % (what, p, pts))
    simple = f[0] in ("ln", "arc") and g[0] in ("ln", "arc")
    if simple:
        require(len(pts) <= len(cross(f, g)[0]), "%s) has surplus points %r" % (what, pts))
    n = judge_params(G, f, g, x, y, what, sure, maybe, tol)
    n += judge_outside(G, f, g, x, y, what, tol, simple, sure)
    require((x, y) == keep, what + ") changed an argument")
    return Out("%s-%s:%d" % (f[0], g[0], len(sure)), [h((f, g))], 2 + n)


def overlap(f, g):
    return any(cross(a, b)[1] for a in prims(f) for b in prims(g))


def judge_params(G, f, g, x, y, what, sure, maybe, tol):
    for inside in (True, False):
        got = G.intersectXY(x, y, inside, params=True)
        w = "%s, inside=%s, params=True)" % (what, inside)
        if got is False:
            require(not sure, "%s finds nothing, misses %r" % (w, sure[:1]))
            continue
        require(isinstance(got, list) and len(got) == 2 and got[0] is not got[1] and len(got[0]) == len(got[1]) and all(isinstance(u, (int, float)) and not isinstance(u, bool) for l in got for u in l), "%s is no pair of parameter lists: %r" % (w, got))
        hits = []
        for u, v in zip(*got):
            a = F.sample(f, u) if valid(f, u) else None
            b = F.sample(g, v) if valid(g, v) else None
            if a is None or b is None:
                continue
            require(any(near(p, b, 3 * tol + 1e-4) for p in a), "%s: parameters %r, %r name %r and %r" % (w, u, v, a, b))
            if -1e-6 < u < 1 + 1e-6 and -1e-6 < v < 1 + 1e-6:
                hits += [p for p in a if near(p, b, 3 * tol + 1e-4)]  # a jump between elements has two points
        for p in sure:
            require(near(p, hits, tol), "%s misses %r: %r" % (w, p, got))
        for p in hits:
            require(near(p, maybe, tol + 2e-2) or overlap(f, g), "%s returned %r, no intersection" % (w, p))
    return 2


def valid(f, u):
    """parameters outside 0..1 are only defined for these"""
    return 0 <= u <= 1 or f[0] in ("ln", "arc") or f[0] == "ply" and not F.closed(f)


def judge_outside(G, f, g, x, y, what, tol, simple, sure):
    got = G.intersectXY(x, y, inside=False)
    pts = [] if got is False else got
    w = what + ", inside=False)"
    for p in sure:
        require(near(p, pts, tol), "%s misses %r: %r" % (w, p, pts))
    if simple:
        cand, bad = cross(f, g)
        for p, _, _ in cand:
            require(bad or near(p, pts, tol), "%s misses %r: %r" % (w, p, pts))
        for p in pts:
            require(near(p, [c[0] for c in cand], tol + 2e-2) or bad, "%s returned %r, not on both" % (w, p))
        require(len(pts) <= len(cand), "%s has surplus points: %r" % (w, pts))
    return 1


def judge_near(case):
    """(line, point): closest point, distance and parameter"""
    from yapcad import geom as G

    f, p = case
    l, q = F.build(f), list(map(float, p)) + [1.0]
    keep = copy.deepcopy((l, q))
    v, w = F.sub(f[2], f[1]), F.sub(p, f[1])
    u = sum(a * b for a, b in zip(v, w)) / sum(a * a for a in v)
    what = "line %r, point %r" % (f[1:], p)
    tol = 1e-6 * (1 + max(abs(c) for c in f[1] + f[2] + tuple(p)))
    for inside in (True, False):
        t = max(0.0, min(1.0, u)) if inside else u
        want = F.lerp(f[1], f[2], t)
        got = G.linePointXY(l, q, inside)
        require(F.dist(got, want) <= tol, "%s: closest point (inside=%s) %r, expected %r" % (what, inside, got, want))
        for d in (G.linePointXY(l, q, inside, distance=True), G.linePointXYDist(l, q, inside)):
            require(abs(d - F.dist(p, want)) <= tol, "%s: distance (inside=%s) %r, expected %r" % (what, inside, d, F.dist(p, want)))
        got = G.linePointXY(l, q, inside, params=True)
        require(abs(got - t) * F.length(f) <= tol, "%s: parameter (inside=%s) %r, expected %r" % (what, inside, got, t))
    require((l, q) == keep, what + ": an argument was changed")
    return Out("near", [], 8)


def judge_tangent(case):
    """(centre, radius, centre, radius) of two circles; radius None: a point"""
    from yapcad import geom as G

    c1, r1, c2, r2 = case
    b = [list(map(float, c2)) + [1.0], [r2, 0, 360, -1]]
    d = math.hypot(c2[0] - c1[0], c2[1] - c1[1])
    p = list(map(float, c1)) + [1.0]
    ra = F.EPS if r1 is None else r1
    try:
        got = G.pointCircleTangentsXY(p, b) if r1 is None else G.circleCircleTangentsXY([p, [r1, 0, 360, -1]], b)
    except ValueError:
        require(d <= abs(ra - r2) + 1e-9, "tangents of circles %r refused" % (case,))
        return Out("refused")
    require(d > abs(ra - r2) - 1e-9, "tangents of nested circles %r: %r" % (case, got))
    require(len(got) == 2, "%d tangents of circles %r" % (len(got), case))
    dirs = []
    for l in got:
        for k, (c, r) in enumerate(((c1, ra), (c2, r2))):
            q = l[k]
            require(abs(math.hypot(q[0] - c[0], q[1] - c[1]) - r) < 1e-6 * (1 + r + d), "circles %r: tangent %r does not start and end on the circles in order" % (case, l))
            v = (l[1][0] - l[0][0], l[1][1] - l[0][1])
            n = math.hypot(*v)
            dot = (v[0] * (q[0] - c[0]) + v[1] * (q[1] - c[1])) / n
            require(n < 1e-6 or abs(dot) < 1e-5 * (1 + r), "circles %r: line %r is not tangent" % (case, l))
        dirs.append(l)
    m = F.dist(dirs[0][1], dirs[1][1])
    require(m > 1e-9 or r2 < 1e-9, "circles %r: the same tangent twice" % (case,))
    # both centres on the same side: outer tangents
    for l in got:
        s = [(l[1][0] - l[0][0]) * (c[1] - l[0][1]) - (l[1][1] - l[0][1]) * (c[0] - l[0][0]) for c in (c1, c2)]
        require(s[0] * s[1] >= -1e-6 * (1 + d) ** 2, "circles %r: crossed tangent %r" % (case, l))
    return Out("tangents", [], 2)


def lines(n):
    ps = [(x, y, 0) for x in (-4, 0, 3) for y in (-2, 0, 5)]
    out = [("ln", a, b) for a, b in itertools.combinations(ps, 2)]
    out += [("ln", b, a) for a, b in itertools.combinations(ps[::2], 2)]
    out += [("ln", (0.01, 0.02, 0), (0.03, 0.01, 0)), ("ln", (0.01, 0, 0), (0.025, 0.03, 0)), ("ln", (-50, -49.5, 0), (60, 61.75, 0)), ("ln", (0.5, -9, 0), (0.5, 9, 0)), ("ln", (-9, 1.25, 0), (9, 1.25, 0)), ("ln", (0, 0, 0), (0.6, 0.1, 0))]
    return out[:n]


def arcs(ctx):
    out = []
    for c, r in (((0, 0, 0), 2.0), ((1.5, 1, 0), 2.5), ((3, 0, 0), 1.5), ((0.25, -0.5, 0), 4.0)):
        for s, e in ((0, 360), (0, 90), (45, 180), (200, 20), (300, 110), (-60, 75), (90, 360), (180, 0), (350, 340), (10, 20), (725, 800), (270, 630.5)):
            for sr in (False, True):
                out.append(("arc", c, r, s, e, sr))
    if ctx.thorough:
        for c, r in (((-1, 0.5, 0), 3.0), ((0, 0, 0), 0.05)):
            for s in range(0, 360, 40):
                for w in (25, 110, 215, 300):
                    out.append(("arc", c, r, s, s + w, s % 80 == 0))
    return out


POLYS = [
    ("ply", ((0, 0, 0), (4, 0, 0), (4, 3, 0))),
    ("ply", ((0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 0, 0))),
    ("ply", ((-1, -1, 0), (5, -1, 0), (5, 4, 0), (-1, 4, 0), (-1, -1, 0))),
    ("ply", ((-3, 1, 0), (1, 2, 0), (2, -3, 0), (6, 1, 0), (3, 6, 0))),
    ("ply", ((1, 1, 0), (1, -5, 0), (-3, 2, 0), (7, 2, 0))),
    ("ply", ((-2, 0, 0), (0, -3, 0), (2, 0, 0), (0, 5, 0), (-2, 0, 0))),
]
LISTS = [
    ("gl", (("ln", (-3, -1, 0), (3, 2, 0)),)),
    ("gl", (("ln", (0, 0, 0), (4, 0, 0)), ("arc", (4, 1.5, 0), 1.5, 270, 90, False), ("ln", (4, 3, 0), (0, 3, 0)), ("arc", (0, 1.5, 0), 1.5, 90, 270, False))),
    ("gl", (("arc", (0, 0, 0), 2.5, 0, 360, False), ("arc", (3, 0, 0), 1.0, 0, 360, True))),
    ("gl", (("pt", 0, 0, 0), ("ln", (0, -4, 0), (1, 4, 0)), POLYS[1])),
    ("gl", (("gl", (("ln", (-4, 1, 0), (5, 1.5, 0)), ("ln", (5, 1.5, 0), (2, -2, 0)))), ("arc", (1, 0, 0), 2.0, 100, 20, True))),
    ("gl", (POLYS[2],)),
    ("gl", (("gl", (POLYS[3], ("ln", (0, 0.5, 0), (9, 0.75, 0)))),)),
    ("gl", (POLYS[5], POLYS[4])),
]


def pairs(ctx):
    ls, ars = lines(60), arcs(ctx)
    simple = ls + ars
    for f, g in itertools.product(simple, simple):
        if f != g:
            yield (f, g)
    # circles from just inside internal tangency to just inside external tangency
    for r1, r2, t, k in itertools.product((0.5, 2.0, 5.0), (0.5, 1.9, 2.0, 5.0), (0, 0.37, 1.3, 3.0), (1e-3, 0.01, 0.05, 0.2, 0.5, 0.9, 0.99, 0.999)):
        lo, hi = abs(r1 - r2), r1 + r2
        d = lo + (hi - lo) * k
        yield (("arc", (1, 2, 0), r1, 0, 360, False), ("arc", (1 + d * math.cos(t), 2 + d * math.sin(t), 0), r2, 0, 360, False))
    comp = POLYS + LISTS
    # lists of lines and arcs moved off the grid by an odd amount, so that joints do not coincide
    for f, g in itertools.product(comp, comp):
        for d in ((0, 0, 0), (0.37, 0.21, 0), (-1.3, 0.9, 0)):
            yield (f, move(g, d))
    for f, g in itertools.product(simple if ctx.thorough else simple[::2], comp):
        yield (f, g)
        yield (g, f)


def move(f, d):
    k = f[0]
    if k == "pt":
        return ("pt",) + F.add(f[1:4], d)
    if k == "ln":
        return ("ln", F.add(f[1], d), F.add(f[2], d))
    if k == "arc":
        return ("arc", F.add(f[1], d)) + f[2:]
    if k == "ply":
        return ("ply", tuple(F.add(p, d) for p in f[1]))
    return ("gl", tuple(move(x, d) for x in f[1]))


def run(ctx):
    pts = [(x, y, 0) for x in (-5, -2, 0, 1.5, 4, 30) for y in (-3, -0.002, 0, 0.001, 2, 9)]
    cs = [(c1, r1, c2, r2) for c1 in ((0, 0, 0), (1, 2, 0)) for r1 in (None, 0.5, 1.0, 3.0) for c2 in ((5, 0, 0), (0, 6, 0), (-4, -3, 0), (0.5, 0.5, 0)) for r2 in (0.5, 1.0, 2.5)]
    ctx.explore(judge, [
        ("int", pairs(ctx)),
        ("near", itertools.product(lines(60) + [("ln", (0, 0, 0), (10, 0, 0)), ("ln", (1000, -3, 0), (-1000, 4, 0))], pts)),
        ("tangent", cs),
    ], batch=128)
    ctx.assumptions.append("contacts within 1e-4 of tangency, of an arc's end or between parallel or concentric elements may be reported or not")
