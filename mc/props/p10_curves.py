"""P10: length, bounds, sampling, un-sampling, slicing and reversal of figures agree."""
import copy
import itertools
import math

from mc import fig2 as F
from mc.core import Out, h, require

META = {
    "id": "P10",
    "title": "Planar figures have one parameterisation that every operation agrees on",
    "statement": "For every point, line, arc, circle, polyline, polygon and geometry list, `sample` follows the documented 0..1 parameterisation by arc length (wrap-around for closed figures, extension for open ones, reversed arcs backwards), and `length`, `center` and `bbox` are those of that curve, the box being tight. `unsample` inverts `sample` and refuses points off the figure. `segment` and list reversal return figures that trace exactly the requested piece, in the requested direction, and no operation changes its argument.",
    "over": ["inputs"],
    "forall": "every line, arc (any start and end angle, either sense), path and geometry list on the stated grids, at every parameter pair of the grid",
    "why": "The suite samples a few arcs and polys; wrong wrap-around, angle normalisation, boxes of arcs that pass a quadrant point, slices that cross the seam and reversed reversed arcs need particular angles and parameters.",
    "files": ["src/yapcad/geom.py"],
    "mech": [["arc parameterisation", "geom.py:samplearc"], ["poly parameterisation", "geom.py:samplepoly"], ["slicing", "geom.py:segmentgeomlist"], ["bounding box", "geom.py:arcbbox"]],
    "technique": "explicit enumeration of all figures and parameters on finite grids, run through the real functions and judged by an independent parametric reference",
    "note": "all arcs on a 15 (quick: 45) degree lattice over three turns, all grid paths to 4 segments, all lists to 3 elements of a 13-letter alphabet",
}

U = [-0.75, -0.25, 0.0, 0.03125, 0.25, 1 / 3, 0.5, 0.625, 0.75, 0.97, 1.0, 1.25, 1.75]
CUTS = [0.0, 0.125, 0.25, 0.4, 0.5, 0.75, 0.9, 1.0]


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def scale_of(f):
    b = F.bounds(f)
    return max(1.0, F.dist(b[0], b[1]), max(abs(c) for p in b for c in p))


def same(p, wants, tol):
    return any(F.dist(p, w) <= tol for w in wants)


def name(f):
    return repr(f)[:160]


def judge_fig(f):
    from yapcad import geom as G

    v = F.build(f)
    keep = copy.deepcopy(v)
    size = scale_of(f)
    tol = 1e-7 * size
    L = F.length(f)
    what = name(f)
    got = G.length(v)
    require(abs(got - L) <= tol, "%s: length %r, expected %r" % (what, got, L))
    box, want = G.bbox(v), F.bounds(f)
    slack = 2 * F.EPS + tol
    require(all(abs(box[i][j] - want[i][j]) <= slack for i in (0, 1) for j in range(3)), "%s: bounding box %r, expected %r" % (what, box, want))
    if f[0] != "gl" or len(f[1]):
        for u in U:
            if f[0] == "gl" and not 0 <= u <= 1 and F.length(f[1][0 if u < 0 else -1]) < 1e-4:
                continue
            p = G.sample(v, u)
            require(len(p) == 4 and p[3] == 1.0, "%s: sample(%g) is no point: %r" % (what, u, p))
            wants = F.sample(f, u)
            require(same(p, wants, tol), "%s: sample(%g) = %r, expected %r" % (what, u, p, wants))
    if f[0] != "gl":
        judge_center(G, f, v, what, tol)
    n = judge_unsample(G, f, v, what, size)
    if f[0] == "gl":
        cont = all(same(F.sample(a, 1.0)[-1], F.sample(b, 0.0)[:1], 1e-7) for a, b in zip(f[1], f[1][1:]))
        if min([F.length(x) for x in f[1]], default=1) > 1e-3:
            require(bool(G.iscontinuousgeomlist(v)) == cont, "%s: continuity reported %r" % (what, not cont))
            cl = not f[1] or cont and same(F.sample(f[1][0], 0.0)[0], F.sample(f[1][-1], 1.0)[-1:], 1e-7)
            require(bool(G.isclosedgeomlist(v)) == cl, "%s: closedness reported %r" % (what, not cl))
        r = F.parse(G.reverseGeomList(v))
        require(same_fig(r, F.reverse(f), tol), "%s: reversed list is %s" % (what, name(r)))
    require(v == keep, "%s: the figure was changed" % what)
    return Out(f[0], [h((f[0], round(L, 6)))], len(U) * 2 + n)


def same_fig(a, b, tol):
    """equal up to rounding and up to arc angle representation"""
    if a[0] != b[0]:
        return False
    if a[0] == "gl":
        return len(a[1]) == len(b[1]) and all(same_fig(x, y, tol) for x, y in zip(a[1], b[1]))
    if a[0] == "ply" and len(a[1]) != len(b[1]):
        return False
    return abs(F.length(a) - F.length(b)) <= tol and all(same(F.sample(a, u)[0], F.sample(b, u), tol) for u in (0.0, 0.2, 0.5, 0.7, 1.0))


def judge_center(G, f, v, what, tol):
    k = f[0]
    if F.circle(f):
        want = f[1]
    elif F.closed(f):
        n = len(f[1]) - 1
        want = tuple(sum(p[i] for p in f[1][:-1]) / n for i in range(3))
    else:
        want = F.sample(f, 0.5)
        require(same(G.center(v), want, tol), "%s: center %r, expected %r" % (what, G.center(v), want))
        return
    require(F.dist(G.center(v), want) <= tol, "%s: center %r, expected %r" % (what, G.center(v), want))


def probes(f):
    """points on the figure, just off it and far off it"""
    out = [("on", p) for u in (0.0, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9, 1.0) for p in F.sample(f, u)]
    for u in (0.0, 0.3, 0.5, 1.0):
        p = F.sample(f, u)[0]
        out += [("off", F.add(p, d)) for d in ((1e-3, 0, 0), (0, -1e-3, 0), (0, 0, 1e-2), (-0.37, 0.81, 0))]
    return out


def judge_unsample(G, f, v, what, size):
    ps = probes(f)
    if f[0] == "arc" and F.length(f) < 1e-6:  # documented: a zero-length arc has no parameter
        return 0
    if f[0] == "gl" and (not f[1] or any(x[0] == "pt" for x in f[1])):
        return 0
    for _, p in ps:
        d = F.to_figure(f, p)
        u = G.unsample(v, list(p) + [1.0])
        if isinstance(u, bool):
            require(u is False and d > 1e-9 * size, "%s: unsample(%r) refuses a point of the figure" % (what, p))
            continue
        if f[0] == "pt":
            require(u == 0.0 and d < 1.01 * F.EPS, "%s: unsample(%r) = %r" % (what, p, u))
            continue
        at = F.sample(f, u) if f[0] != "gl" or len(f[1]) == 1 or -1e-9 <= u <= 1 + 1e-9 else [(1e9, 0, 0)]
        require(same(p, at, 3 * F.EPS), "%s: unsample(%r) = %r, where the figure is at %r" % (what, p, u, at))
        if d < 1e-9 * size:
            require(-1e-6 <= u <= 1 + 1e-6, "%s: unsample(%r) = %r, outside 0..1 for a point of the figure" % (what, p, u))
    return len(ps)


def wraps(f):
    return F.closed(f) or F.circle(f)


def judge_seg(case):
    """(figure, u1, u2): a slice traces the same curve"""
    from yapcad import geom as G

    f, u1, u2 = case
    v = F.build(f)
    keep = copy.deepcopy(v)
    what = "segment(%s, %g, %g)" % (name(f), u1, u2)
    g = F.parse(G.segment(v, u1, u2))
    require(v == keep, what + ": the figure was changed")
    if f[0] == "pt":
        require(g == F.parse(v), what + " = %r" % (g,))
        return Out("pt")
    L = F.length(f)
    span = u2 - u1
    if span == -1 and wraps(f):
        return Out("whole backwards")  # nothing says which way round
    if span < 0 and wraps(f):
        span += 1.0
    check_slice(f, g, u1, span, what, 3 * F.EPS * max(1.0, L))
    return Out(f[0] + ("+" if u2 > u1 else "-"), [h((f[0], u1, u2))], 9)


def check_slice(f, g, u1, span, what, tol):
    L = F.length(f)
    require(abs(F.length(g) - abs(span) * L) <= tol, "%s has length %g, expected %g: %s" % (what, F.length(g), abs(span) * L, name(g)))
    for k in range(9):
        w = k / 8
        p = F.sample(g, w)
        at = u1 + span * w
        wants = []
        for e in (0, 1e-5, -1e-5):
            wants += F.sample(f, at + e if not wraps(f) else (at + e) % 1.0)
        require(any(same(q, wants, tol + 3e-5 * L) for q in p), "%s: at %g it is at %r, expected %r" % (what, w, p, wants[:1]))


def judge_glseg(case):
    """(list, u1, u2, closed, reverse)"""
    from yapcad import geom as G

    f, u1, u2, cl, rev = case
    v = F.build(f)
    keep = copy.deepcopy(v)
    what = "segmentgeomlist(%s, %g, %g, closed=%s, reverse=%s)" % (name(f), u1, u2, cl, rev)
    if u1 > u2 and not cl:
        try:
            G.segmentgeomlist(v, u1, u2, closed=cl, reverse=rev)
        except ValueError:
            return Out("refused")
        require(False, what + " not refused")
    g = F.parse(G.segmentgeomlist(v, u1, u2, closed=cl, reverse=rev))
    require(v == keep, what + ": the list was changed")
    if rev:
        g = F.reverse(g)
    L = F.length(f)
    span = u2 - u1
    if cl and span < 0:
        span += 1.0
    require(g[0] == "gl", what + " is no list")
    tol = 3 * F.EPS * max(1.0, L)
    require(abs(F.length(g) - span * L) <= tol, "%s has length %g, expected %g" % (what, F.length(g), span * L))
    for k in range(13):
        w = k / 12
        at = u1 + span * w
        wants = []
        for e in (0, 1e-5, -1e-5):
            wants += F.sample(f, (at + e) % 1.0 if cl else min(1.0, max(0.0, at + e)))
        require(any(same(q, wants, tol + 3e-5 * L) for q in F.sample(g, w)), "%s: at %g it is at %r, expected %r" % (what, w, F.sample(g, w), wants[:1]))
    return Out("list", [h(case[1:])], 13)


def judge_vec(case):
    """(a, b, c): the vector helpers are those of homogeneous 3-vectors"""
    from yapcad import geom as G

    a, b, c = ([float(x) for x in v] + [1.0] for v in case[:3])
    s = case[3]
    tol = 1e-9 * (1 + max(abs(x) for x in a + b + c) ** 2 * max(1, abs(s)))

    def eq(got, want):
        require(len(got) == len(want) and all(abs(x - y) <= tol for x, y in zip(got, want)), "vector operation on %r, %r: %r, expected %r" % (a, b, got, want))

    eq(G.add(a, b), [x + y for x, y in zip(a[:3], b)] + [1])
    eq(G.sub(a, b), [x - y for x, y in zip(a[:3], b)] + [1])
    eq(G.scale3(a, s), [x * s for x in a[:3]] + [1])
    eq(G.cross(a, b), [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 1])
    eq([G.dot(a, b), G.mag(a) ** 2, G.dist(a, b) ** 2], [sum(x * y for x, y in zip(a[:3], b)), sum(x * x for x in a[:3]), sum((x - y) ** 2 for x, y in zip(a, b))])
    eq(G.homo([a[0] * 4, a[1] * 4, a[2] * 4, 4.0]), a)
    require(G.dot(G.orthoXY(a), a) == 0, "orthoXY(%r) is not orthogonal" % (a,))
    d = (b[1] - c[1]) * (a[0] - c[0]) + (c[0] - b[0]) * (a[1] - c[1])
    if abs(d) > 1e-3 and a[2] == b[2] == c[2]:
        q = [a[0] * 0.25 + b[0] * 1.5 - c[0] * 0.75, a[1] * 0.25 + b[1] * 1.5 - c[1] * 0.75, a[2], 1.0]
        eq(G.barycentricXY(q, a, b, c), [0.25, 1.5, -0.75])
    return Out("vec")


P9 = [(x, y, 0) for x in (0, 3, 7) for y in (0, 4, 5)]


def paths(n):
    """all paths of n segments over the grid, closing ones included"""
    def go(path):
        if len(path) == n + 1:
            yield tuple(path)
            return
        for p in P9:
            if p != path[-1]:
                yield from go(path + [p])
    for a in (P9[0], P9[4]):
        yield from go([a])


def arcs(ctx):
    step = ctx.pick(45, 15)
    ang = list(range(-360, 721, step))
    cs = [((0, 0, 0), 1.0), ((2.5, -7, 3), 4.25)]
    for (c, r), s, e, sr in itertools.product(cs, ang, ang, (False, True)):
        yield ("arc", c, r, s, e, sr)
    odd = [0.5, 12.25, 89.99, 90.01, 179.0, 200.0, 270.5, 359.5, -0.25, -100.0, 400.0]
    for (c, r), s, e, sr in itertools.product([((1, 1, 0), 0.01), ((-3, 100, 0), 250.0)], odd, odd + [0, 90, 180, 360], (False, True)):
        yield ("arc", c, r, s, e, sr)


def lines():
    ps = [(x, y, z) for x in (-2, 0, 5) for y in (-1, 0, 3) for z in (0, 4)] + [(0.001, 0, 0), (1000, 250, 0)]
    for a, b in itertools.permutations(ps, 2):
        yield ("ln", a, b)


ITEMS = [
    ("ln", (0, 0, 0), (4, 0, 0)),
    ("ln", (4, 0, 0), (4, 3, 0)),
    ("ln", (4, 3, 0), (0, 0, 0)),
    ("arc", (4, 1.5, 0), 1.5, 270, 90, False),
    ("arc", (4, 1.5, 0), 1.5, 270, 90, True),
    ("arc", (0, 0, 0), 4.0, 0, 90, False),
    ("arc", (10, 0, 0), 2.0, 0, 360, False),
    ("arc", (0, 0, 0), 5.0, 30, 300, True),
    ("ply", ((4, 0, 0), (4, 3, 0), (0, 3, 0))),
    ("ply", ((0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 0, 0))),
    ("pt", 1, 2, 0),
    ("gl", (("ln", (4, 3, 0), (1, 3, 0)), ("arc", (1, 1.5, 0), 1.5, 90, 270, False))),
    ("ln", (0, 3, 0), (0, 0, 0)),
]


def lists(n):
    for k in range(1, n + 1):
        for t in itertools.product(ITEMS, repeat=k):
            if all(x[0] == "pt" for x in t):
                continue
            yield ("gl", t)


def clean(ctx):
    """lists that may be sliced: no zero-length items"""
    its = [x for x in ITEMS if x[0] != "pt"]
    for k in (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4):
        for t in itertools.product(its if k < 4 else its[::2], repeat=k):
            yield ("gl", t)


def pairs(us, back=True):
    return [(a, b) for a in us for b in us if a != b and (back or a < b)]


def segs(ctx):
    for f in itertools.chain(lines(), [("pt", 1, 2, 3)]):
        for a, b in pairs(CUTS[::2] + [1.0]):
            yield (f, a, b)
    for f in arcs(ctx):
        if F.sweep(f)[1] < 1e-6:
            continue
        for a, b in pairs([0.0, 0.25, 0.4, 1.0]):
            yield (f, a, b)
    for n in (2, 3):
        for i, p in enumerate(paths(n)):
            for a, b in pairs(CUTS if ctx.thorough else [0.0, 0.125, 0.5, 0.9, 1.0]):
                yield (("ply", p), a, b)


def glsegs(ctx):
    for f in clean(ctx):
        cl = same(F.sample(f[1][0], 0.0)[0], F.sample(f[1][-1], 1.0), 1e-7)
        for a, b in pairs([0.0, 0.2, 0.5, 0.8, 1.0] if len(f[1]) < 3 or ctx.thorough else [0.0, 0.35, 0.8]):
            for rev in (False, True):
                yield (f, a, b, False, rev)
                if cl and b < 1.0 and a < 1.0:
                    yield (f, a, b, True, rev)


def run(ctx):
    figs = itertools.chain([("pt", 1, 2, 3), ("pt", 0, 0, 0)], lines(), arcs(ctx), (("ply", p) for n in ((2, 3) if not ctx.thorough else (2, 3, 4)) for p in paths(n)), lists(3))
    vs = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (-3, 4, 0), (0.5, -0.25, 2), (10, 20, -30)]
    ctx.explore(judge, [
        ("fig", figs),
        ("seg", segs(ctx)),
        ("glseg", glsegs(ctx)),
        ("vec", itertools.product(vs, vs, vs, (0, -1.5, 3))),
    ], batch=128)
