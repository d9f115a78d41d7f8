"""P13: planar boolean operations are the set operations on the figures' insides."""
import contextlib
import copy
import functools
import io
import itertools
import math

from mc import fig2 as F
from mc.core import Out, h, require
from mc.props import p12_inside as P

META = {
    "id": "P13",
    "title": "Planar booleans, regions and outlines are set operations",
    "statement": "The union, intersection and difference of closed planar figures, by `combineglist`, the `Boolean` class or the DSL's `union2d`/`difference2d`/`intersection2d` (and `_all`) in any sequence, contain exactly the points the set operation says, as closed outlines with the inside on their left, whatever the figures' direction, holes, separate parts, shared edges or tangencies; operands are never changed. Turning a figure into polygons with holes keeps its inside and nests the outlines, and a `Polygon` of points and circles in convex position is their hull.",
    "over": ["inputs", "histories"],
    "forall": "every ordered pair of an outline alphabet at every offset of a lattice and in general position, every sequence of region operations up to a depth, and every nesting, order and direction of an outline alphabet",
    "why": "Outlines are cut and rejoined by where they meet, which goes wrong only for particular numbers and kinds of contacts; the suite tries a handful of pairs.",
    "files": ["src/yapcad/geom_util.py", "src/yapcad/combine.py", "src/yapcad/poly.py", "src/yapcad/dsl/runtime/builtins.py"],
    "mech": [["combination", "geom_util.py:combineglist"], ["polygons with holes", "geom_util.py:geomlist2poly_components"], ["Boolean figures", "combine.py:Boolean"], ["rounded outlines", "poly.py:Polygon._makeoutline"], ["DSL regions", "builtins.py:_union2d"]],
    "technique": "explicit enumeration of all pairs of an outline alphabet over an offset lattice and of all region operation sequences up to a depth on the real functions, judged by point membership computed independently",
    "note": "membership is judged on a probe lattice away from the boundary; sequences of 2 (quick) or 3 (thorough) operations",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    with contextlib.redirect_stdout(io.StringIO()):
        return globals()["judge_" + kind](tup(case))


OPS = {"union": lambda a, b: a or b, "intersection": lambda a, b: a and b, "difference": lambda a, b: a and not b}


def gl(*e):
    return ("gl", e)


def poly(*ps):
    """an outline of lines"""
    return ("gl", tuple(("ln", a + (0,), b + (0,)) for a, b in zip(ps, ps[1:] + ps[:1])))


SHAPES = {
    "sq": poly((-2, -2), (2, -2), (2, 2), (-2, 2)),
    "ply": P.loop((-1, -2), (3, -2), (3, 1), (-1, 1)),
    "cw": P.loop((-2, -2), (-2, 2), (2, 2), (2, -2)),
    "tri": poly((-2, -1), (3, -2), (0, 3)),
    "L": poly((-3, -3), (3, -3), (3, -1), (-1, -1), (-1, 3), (-3, 3)),
    "U": poly((-3, -2), (3, -2), (3, 2), (2, 2), (2, -1), (-2, -1), (-2, 2), (-3, 2)),
    "star": poly((-3, 0), (-1, -1), (0, -3), (1, -1), (3, 0), (1, 1), (0, 3), (-1, 1)),
    "circ": gl(P.circ(0, 0, 2)),
    "disc": P.circ(0, 0, 1),
    "stad": ("gl", P.stadium()),
    "rr": ("gl", P.rrect(-3, -2, 6, 4, 1)),
    "pac": ("gl", P.pac()),
    "ring": gl(poly((-3, -3), (3, -3), (3, 3), (-3, 3)), poly((-1, -1), (1, -1), (1, 1), (-1, 1))),
    "annul": gl(gl(P.circ(0, 0, 3)), gl(P.circ(0, 0, 2, True))),
    "two": gl(poly((-3, -1), (-1, -1), (-1, 1), (-3, 1)), poly((1, -1), (3, -1), (3, 1), (1, 1))),
}


def move(f, d):
    if d == (0, 0):
        return f
    from mc.props.p11_intersect import move as m
    return m(f, (d[0], d[1], 0))


@functools.lru_cache(None)
def segs(name):
    return tuple(P.flat(SHAPES[name]))


def within(fig, p):
    """p in shape name at offset d"""
    name, d = fig[:2]
    return P.parity(segs(name), (p[0] - d[0], p[1] - d[1]))


def place(fig):
    f = move(SHAPES[fig[0]], fig[1])
    if len(fig) > 2 and fig[2]:
        f = F.reverse(f) if f[0] in ("gl", "ply") else ("gl", (F.reverse(f),))
    return f


def probes(figs, n=14):
    lo = [min(F.bounds(place(f))[0][i] for f in figs) - 0.4 for i in (0, 1)]
    hi = [max(F.bounds(place(f))[1][i] for f in figs) + 0.4 for i in (0, 1)]
    for i in range(n):
        for j in range(n):
            yield (lo[0] + (hi[0] - lo[0]) * (i + 0.5 + 0.013 * j) / (n + 0.5), lo[1] + (hi[1] - lo[1]) * (j + 0.5 + 0.0171 * i) / (n + 0.5), 0.0)


def loops_of(v):
    """result value -> list of loops (lists of lines/arcs), checking the shape"""
    f = F.parse(v) if v else ("gl", ())
    if f[0] == "arc" or f[0] == "ply":
        f = ("gl", (f,))
    out = []
    if all(x[0] in ("ln", "arc") for x in f[1]):
        return [f[1]] if f[1] else []
    for x in f[1]:
        require(x[0] in ("gl", "ply", "arc"), "a result mixes outlines and loose elements: %r" % (v,))
        out.append((x,) if x[0] == "arc" else tuple(F.parts(x)))
        require(all(e[0] in ("ln", "arc") for e in out[-1]), "an outline holds %r" % (x,))
    return out


def check_loops(loops, edges, what, tol=1e-4):
    for l in loops:
        ends = [(F.sample(e, 0.0)[0], F.sample(e, 1.0)[0]) for e in l]
        for (a, b), (c, d) in zip(ends, ends[1:] + ends[:1]):
            require(F.dist(b, c) < tol, "%s: an outline is not closed: %r then %r" % (what, b, c))
        for e in l:
            for u in (0.0, 0.21, 0.5, 0.87):
                p = F.sample(e, u)[0]
                require(min(F.to_figure(x, p) for x in edges) < tol, "%s: %r is on an outline of the result but on no operand's" % (what, p))


def left_inside(loops, flatsegs, want_in, what):
    for l in loops:
        for e in l:
            L = F.length(e)
            if L < 0.05:
                continue
            a, m, b = F.sample(e, 0.5 - 0.001 / L)[0], F.sample(e, 0.5)[0], F.sample(e, 0.5 + 0.001 / L)[0]
            t = F.sub(b, a)
            n = math.hypot(t[0], t[1])
            for s in (1, -1):
                p = (m[0] - s * t[1] / n * 4e-3, m[1] + s * t[0] / n * 4e-3, 0.0)
                w = want_in(p)
                if w is not None:
                    require(w == (s == 1), "%s: the inside is not on the left of %r at %r" % (what, e, m))


def judge_pair(case):
    a, b, op = case
    from yapcad.geom_util import combineglist

    fa, fb = place(a), place(b)
    va, vb = F.build(fa), F.build(fb)
    ka, kb = copy.deepcopy(va), copy.deepcopy(vb)
    r = combineglist(va, vb, op)
    require(va == ka and vb == kb, "%s changes its operands" % op)
    what = "%s of %r and %r" % (op, a, b)
    loops = loops_of(r)
    check_loops(loops, (fa, fb), what)
    rs = P.flat(("gl", tuple(("gl", l) for l in loops))) if loops else []
    n = m = 0
    for p in probes((a, b)):
        if min(F.to_figure(fa, p), F.to_figure(fb, p)) < 1e-3:
            continue
        w = OPS[op](within(a, p), within(b, p))
        require(P.parity(rs, p) == w, "%s: %r is %s it, the result says otherwise" % (what, p, "inside" if w else "outside"))
        n += 1
        m += w

    def want(p):
        if min(F.to_figure(fa, p), F.to_figure(fb, p)) < 2e-3:
            return None
        return OPS[op](within(a, p), within(b, p))

    left_inside(loops, rs, want, what)
    return Out("%s %s" % (op, "empty" if not loops else "%d loop%s" % (min(len(loops), 3), "s" * (len(loops) > 1))), steps=n + m)


def judge_empty(case):
    a, op, first = case
    from yapcad.geom_util import combineglist

    va = F.build(place(a))
    r = combineglist([], va, op) if first else combineglist(va, [], op)
    keep = op == "union" or (op == "difference" and not first)
    rs = P.flat(("gl", tuple(("gl", l) for l in loops_of(r)))) if r else []
    for p in probes((a,)):
        if F.to_figure(place(a), p) > 1e-3:
            require(P.parity(rs, p) == (keep and within(a, p)), "%s of %r and an empty figure is wrong at %r" % (op, a, p))
    return Out("empty operand", steps=289)


def as_geometry(fig):
    from yapcad.combine import Boolean
    from yapcad.geometry import Geometry

    parts = {"ring": "difference", "two": "union"}.get(fig[0])
    if parts:  # figures of several outlines are themselves Booleans
        return Boolean(parts, [Geometry(F.build(x)) for x in place(fig)[1]])
    return Geometry(F.build(place(fig)))


def judge_boolean(case):
    """Boolean figures of 2 or 3 operands, measured in a given order"""
    op, figs, reads = case
    from yapcad.combine import Boolean
    from yapcad import geom as G

    ops = [as_geometry(f) for f in figs]
    keep = [copy.deepcopy(o.geom) for o in ops]
    b = Boolean(op, ops)
    want = functools.partial(fold, op, figs)
    what = "Boolean %s of %r read %s" % (op, figs, reads)
    edges = [place(f) for f in figs]
    for r in reads:
        try:
            got = {"bbox": lambda: b.bbox, "length": lambda: b.length, "center": lambda: b.center, "geom": lambda: b.geom, "inside": lambda: b.isinsideXY(G.point(50, 50)), "sample": lambda: b.sample(0.25)}[r]()
        except (ValueError, IndexError) as e:
            require(r == "sample" and not b.geom, "%s: %s fails: %s" % (what, r, e))
    require([o.geom for o in ops] == keep, "%s: operands changed" % what)
    loops = loops_of(b.geom)
    check_loops(loops, edges, what, 0.02)
    rs = P.flat(("gl", tuple(("gl", l) for l in loops))) if loops else []
    n = 0
    for p in probes(figs, 13):
        if min(F.to_figure(e, p) for e in edges) < 0.03:
            continue
        w = want(p)
        require(P.parity(rs, p) == w, "%s: %r is %s it, the result says otherwise" % (what, p, "inside" if w else "outside"))
        n += 1
    if loops:
        box = b.bbox
        fb = F.bounds(("gl", tuple(("gl", l) for l in loops)))
        require(all(abs(box[k][i] - fb[k][i]) < 1e-4 for k in (0, 1) for i in (0, 1)), "%s: bounding box %r is not %r" % (what, box, fb))
        L = sum(F.length(e) for l in loops for e in l)
        require(abs(b.length - L) < 1e-4, "%s: length %r is not %r" % (what, b.length, L))
        q = b.sample(0.25)
        require(min(F.to_figure(e, tuple(q[:3])) for l in loops for e in l) < 1e-4, "%s: sample is not on the outline" % what)
    return Out("%d operands" % len(figs), steps=n)


def fold(op, figs, p):
    w = within(figs[0], p)
    for f in figs[1:]:
        w = OPS[op](w, within(f, p))
    return w


# DSL regions -------------------------------------------------------------

def rect_src(w, hh, x, y):
    return "polygon([point(%r, %r), point(%r, %r), point(%r, %r), point(%r, %r)])" % (x - w / 2, y - hh / 2, x + w / 2, y - hh / 2, x + w / 2, y + hh / 2, x - w / 2, y + hh / 2)


DSL = {  # source, membership test
    "big": (rect_src(8.0, 8.0, 0.0, 0.0), [(-4, 4, -4, 4)]),
    "bar": (rect_src(12.0, 2.0, 0.0, 0.0), [(-6, 6, -1, 1)]),
    "mid": (rect_src(3.0, 3.0, 0.0, 0.0), [(-1.5, 1.5, -1.5, 1.5)]),
    "off": (rect_src(4.0, 4.0, 2.0, 3.0), [(0, 4, 1, 5)]),
    "far": (rect_src(2.0, 4.0, 7.0, -3.0), [(6, 8, -5, -1)]),
    "side": (rect_src(2.0, 2.0, 1.0, -3.0), [(0, 2, -4, -2)]),
}
DOPS = {"u": ("union2d", OPS["union"]), "d": ("difference2d", OPS["difference"]), "i": ("intersection2d", OPS["intersection"])}


def in_boxes(bs, p):
    return any(x0 < p[0] < x1 and y0 < p[1] < y1 for x0, x1, y0, y1 in bs)


def judge_dsl(case):
    """base then (op, tool) pairs; ops in caps use the _all form on the tools so far"""
    base, steps, form = case
    from yapcad.dsl.runtime.interpreter import compile_and_run

    names = [base] + [t for _, t in steps]
    lines = ["module regions;", "command R() -> region2d:"]
    for i, n in enumerate(names):
        lines.append("    let s%d: region2d = %s" % (i, DSL[n][0]))
    if form == "all":
        op = steps[0][0]
        if op == "d":
            e = "difference2d_all(s0, [%s])" % ", ".join("s%d" % i for i in range(1, len(names)))
        else:
            e = "%s_all([%s])" % (DOPS[op][0], ", ".join("s%d" % i for i in range(len(names))))
    else:
        e = "s0"
        for i, (op, _) in enumerate(steps):
            e = "%s(%s, s%d)" % (DOPS[op][0], e, i + 1)
    lines += ["    let r: region2d = " + e, "    emit r"]
    res = compile_and_run("\n".join(lines) + "\n", "R", {})
    require(res.success, "%r: %s" % (case, res.error_message))
    loops = loops_of(res.geometry)
    edges = [("ply", ((x0, y0, 0), (x1, y0, 0), (x1, y1, 0), (x0, y1, 0), (x0, y0, 0))) for n in names for x0, x1, y0, y1 in DSL[n][1]]
    check_loops(loops, edges, repr(case))
    rs = P.flat(("gl", tuple(("gl", l) for l in loops))) if loops else []
    cells = 0
    for i in range(32):
        for j in range(32):
            p = (-7.77 + i * 0.5, -7.77 + j * 0.5, 0.0)
            w = in_boxes(DSL[base][1], p)
            for op, t in steps:
                w = DOPS[op][1](w, in_boxes(DSL[t][1], p))
            require(P.parity(rs, p) == w, "%r: %r is %s it, the region says otherwise" % (case, p, "inside" if w else "outside"))
            cells += w
    return Out("dsl %d steps" % len(steps), [h((form, tuple(o for o, _ in steps), cells))], len(steps))


# outlines to polygons with holes -----------------------------------------

OUT = {
    "frame": poly((-8, -8), (8, -8), (8, 8), (-8, 8)),
    "C": poly((-7, -7), (7, -7), (7, -5), (-5, -5), (-5, 5), (7, 5), (7, 7), (-7, 7)),
    "mid": poly((-3, -3), (3, -3), (3, 3), (-3, 3)),
    "dot": gl(P.circ(0, 0, 1)),
    "small": poly((-2, -2), (-1, -2), (-1, -1), (-2, -1)),
    "slot": ("gl", tuple(P.stad(1.5, 1.75))),
    "arm": P.loop((4, 5.5), (5, 5.5), (5, 6.5), (4, 6.5)),
    "away": P.loop((10, 0), (13, 0), (13, 3), (10, 3)),
}


def judge_nest(case):
    names, form = case
    from yapcad.geom_util import geomlist2poly_components, geomlist2poly_with_holes

    figs = [OUT[n] for n in names]
    if form & 1:
        figs = [F.reverse(f) for f in figs]
    if form & 2:  # one flat list of elements, dealt out in turn so that outlines are mixed
        flat = [list(F.parts(f)) for f in figs]
        es = []
        while any(flat):
            for l in flat:
                if l:
                    es.append(l.pop(0))
        figs = es
    f = ("gl", tuple(figs))
    v = F.build(f)
    keep = copy.deepcopy(v)
    comps = geomlist2poly_components(v)
    first = geomlist2poly_with_holes(v)
    require(v == keep, "the outlines are changed")
    require(tuple(map(list, first)) == tuple(map(list, comps[0])) if comps else first == ([], []), "with_holes is not the first component")
    what = "%r form %d" % (names, form)
    ins = P.flat(f)
    pieces = []
    for outer, holes in comps:
        for l, sign in [(outer, 1)] + [(x, -1) for x in holes]:
            require(len(l) > 3 and F.dist(l[0], l[-1]) < 1e-6, "%s: an outline is not closed" % what)
            a = sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(l, l[1:]))
            require(a * sign > 0, "%s: %s turns the wrong way" % (what, "an outline" if sign > 0 else "a hole"))
        so = list(zip(outer, outer[1:]))
        sh = [list(zip(x, x[1:])) for x in holes]
        for x in holes:
            for p in x:
                require(P.parity(so, p) or min(F.to_figure(("ln", s[0], s[1]), p) for s in so) < 1e-3, "%s: a hole is not in its outline" % what)
        pieces.append((so, sh))
    n = 0
    for i in range(30):
        for j in range(24):
            p = (-9.13 + i * 0.8171 + j * 0.003, -9.17 + j * 0.8133 + i * 0.0023, 0.0)
            if F.to_figure(f, p) < 0.02:
                continue
            w = P.parity(ins, p)
            got = sum(P.parity(o, p) and not any(P.parity(x, p) for x in hs) for o, hs in pieces)
            require(got == w, "%s: %r is in %d components, expected %d" % (what, p, got, w))
            n += 1
    return Out("nest %d" % len(comps), steps=n)


# Polygon outlines --------------------------------------------------------

BASES = [((0, 0), (6, 0), (2, 5)), ((0, 0), (6, -1), (7, 4), (1, 5)), ((0, 0), (6, 0), (6, 6), (0, 6)), ((0, 0), (5, -2), (8, 2), (5, 7), (0, 5))]


def hull(pts):
    pts = sorted(set(pts))

    def half(ps):
        s = []
        for p in ps:
            while len(s) > 1 and (s[-1][0] - s[-2][0]) * (p[1] - s[-2][1]) - (s[-1][1] - s[-2][1]) * (p[0] - s[-2][0]) <= 0:
                s.pop()
            s.append(p)
        return s[:-1]

    return half(pts) + half(pts[::-1])


def judge_polygon(case):
    b, rr, k, grow = case
    from yapcad import geom as G
    from yapcad.poly import Polygon

    e = list(zip(BASES[b], rr))
    e = e[k:] + e[:k]
    pg = Polygon()
    for (x, y), r in e:
        if r == 0:
            pg.addPoint(G.point(x, y))
        else:
            pg.addArc(G.arc(G.point(x, y), r))
    if grow:
        if k % 2:
            pg.length  # measured before it grows
        pg.grow(grow)
    v = pg.geom
    loops = loops_of(v)
    what = "Polygon %r grown by %r" % (e, grow)
    require(len(loops) == 1, "%s is not one outline: %r" % (what, v))
    pts = []
    for (x, y), r in e:
        R = r + grow
        pts += [(x + R * math.cos(t * math.pi / 60), y + R * math.sin(t * math.pi / 60)) for t in range(120)] if R else [(x, y)]
    hl = hull(pts)
    edge = ("ply", tuple(p + (0,) for p in hl + hl[:1]))
    check_loops(loops, (edge,), what, 2e-3)
    rs, hs = P.flat(("gl", loops[0])), list(zip(hl, hl[1:] + hl[:1]))
    for i in range(9):
        for j in range(9):
            p = (-2.9 + i * 1.5313, -4.7 + j * 1.5517, 0.0)
            if F.to_figure(edge, p) > 5e-3:
                require(P.parity(rs, p) == P.parity(hs, p), "%s: %r is on the wrong side" % (what, p))
    L = sum(F.dist(a, b) for a, b in hs)
    require(abs(pg.length - L) < 2e-3 + 3e-4 * L, "%s: length %r, hull %r" % (what, pg.length, L))
    q, u = pg.sample(0.37), pg.unsample(pg.sample(0.37))
    require(not isinstance(u, bool) and abs(u - 0.37) < 1e-4, "%s: unsample(sample(0.37)) is %r" % (what, u))
    return Out("polygon %d" % len(e))


def pairs(ctx):
    gen = [(0.31, 0.17), (1.37, 0.73), (2.11, -1.57), (-3.3, 0.4), (4.1, 3.9), (0.2, -4.3)]
    lat = [(x, y) for x in (-4, -2, -1, 0, 3) for y in (-3, 0, 2)] if not ctx.thorough else [(x, y) for x in range(-6, 7) for y in range(-5, 6)]
    names = list(SHAPES)
    for a, b in itertools.product(names, names):
        for o in gen + lat:
            for op in OPS:
                if not ctx.thorough and o in lat and (a, b) not in FULL and op != list(OPS)[(names.index(a) + names.index(b) + lat.index(o)) % 3]:
                    continue
                yield ((a, (0, 0), False), (b, o, False), op)
                if ctx.thorough or o == gen[1]:
                    yield ((a, (0, 0), True), (b, o, False), op)
                    yield ((a, (0, 0), False), (b, o, True), op)


FULL = {("sq", "sq"), ("sq", "L"), ("L", "U"), ("ring", "sq"), ("circ", "sq"), ("stad", "circ"), ("two", "sq"), ("U", "U"), ("ring", "ring"), ("annul", "circ")}


def booleans(ctx):
    fs = [("sq", (0, 0)), ("circ", (1.37, 0.73)), ("L", (0.31, -0.17)), ("disc", (5.2, 0.3)), ("ring", (0.2, 0.1)), ("disc", (0.13, 0.21))]
    if ctx.thorough:
        fs += [("star", (0.5, 0.4)), ("two", (0.3, 0.6)), ("stad", (1.1, -2.3))]
    reads = [("bbox",), ("length", "geom"), ("center",), ("inside",), ("sample", "bbox"), ("geom",)]
    i = 0
    for op in OPS:
        for n in (2, 3):
            for c in itertools.permutations(fs, n):
                for r in reads if n == 2 else reads[i % len(reads):][:1]:
                    yield (op, c, r)
                i += 1


def programs(ctx):
    tools = list(DSL)
    for base in tools:
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            for ts in itertools.product(tools, repeat=n):
                for os in itertools.product("udi", repeat=n):
                    yield (base, tuple(zip(os, ts)), "chain")
                for o in "udi":
                    yield (base, tuple((o, t) for t in ts), "all")
    if not ctx.thorough:
        for base in ("big", "bar"):
            for ts in itertools.permutations(tools, 3):
                if base not in ts:
                    for os in itertools.product("ud", repeat=3):
                        yield (base, tuple(zip(os, ts)), "chain")


def nests(ctx):
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        for c in itertools.permutations(OUT, n):
            for form in range(4):
                yield (c, form)
    for c in itertools.combinations(OUT, 5):
        for form in range(4):
            yield (c, form)


def polygons(ctx):
    for b, base in enumerate(BASES):
        for rr in itertools.product((0, 0.5, 1.0) if len(base) < 5 or ctx.thorough else (0, 1.0), repeat=len(base)):
            for k in range(len(base)):
                for g in (0, 0.7):
                    yield (b, rr, k, g)


def run(ctx):
    drivers = [("pair", pairs(ctx)), ("empty", ((( n, (0, 0), False), op, first) for n in SHAPES for op in OPS for first in (False, True))),
               ("boolean", booleans(ctx)), ("dsl", programs(ctx)), ("nest", nests(ctx)), ("polygon", polygons(ctx))]
    ctx.explore(judge, drivers, batch=40)
    ctx.notes["reference"] = "even-odd membership of each operand combined by the set operation; the result's outlines must be closed, lie on the operands' outlines and have the inside on their left"
    ctx.assumptions.append("points within 1e-3 of an operand's boundary (0.03 for the Boolean class, which works on polygonal approximations) are not judged")
    ctx.assumptions.append("Polygon outlines are claimed for elements in convex position listed counter-clockwise, the order the code states it assumes")
