"""P34: DXF drawings hold exactly the geometry drawn."""
import itertools
import math
import os
import tempfile

from mc.core import Out, require
from mc.props.p27_splines import catmull

META = {
    "id": "P34",
    "title": "DXF drawings hold exactly the geometry that was drawn",
    "statement": "A DXF file that `ezdxfDraw`, `write_dxf` or `write_dxf_multi` writes opens in another reader without errors, in millimetres, and holds each element of the geometry once, in order: lines and arcs with their ends, whole circles as circles, ellipses with their axes and span, splines and polygons as connected chains on the curve that close when the curve does, nested lists and Geometry objects as what they hold. Every entity is on the layer and has the colour that was set. Things that cannot be drawn are reported, and the file has the name that was asked for, whatever dots it has.",
    "over": ["inputs"],
    "forall": "every element, transform, nesting, layer, colour, style and path of the grids",
    "why": "Angles that wrap, swapped axes, closed splines, black and names with dots are lost one at a time; the suite writes two files and checks that they exist.",
    "files": ["src/yapcad/ezdxf_drawable.py", "src/yapcad/ezdxf_exporter.py", "src/yapcad/drawable.py"],
    "mech": [["entities", "ezdxf_drawable.py:ezdxfDraw"], ["dispatch", "drawable.py:Drawable.draw"], ["files", "ezdxf_exporter.py:write_dxf"]],
    "technique": "explicit enumeration of elements and drawing states against the real exporter, each file read back with ezdxf and compared with independent parametrisations",
    "note": "DXF is two-dimensional here: z is dropped; points are drawn as markers; splines are sampled",
}

TAU = math.tau


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def pt(*c):
    from yapcad.geom import point
    return point(*c)


# ---------------------------------------------------------------- elements, and what they are
def e_line(a, b):
    from yapcad.geom import line
    return line(pt(*a), pt(*b)), [("line", a, b)]


def e_arc(c, r, s, e, rev):
    from yapcad.geom import arc
    return arc(pt(*c), r, s, e, samplereverse=bool(rev)), [("arc", c, r, s, e)]


def e_circle(c, r):
    from yapcad.geom import arc
    return arc(pt(*c), r), [("arc", c, r, 0, 360)]


def e_ellipse(c, a, b, rot, s, e):
    from yapcad.geom import ellipse
    if b > a:
        w = (b, a, rot + 90)
    else:
        w = (a, b, rot)
    return ellipse(pt(*c), a, b, rotation=rot, start=s, end=e), [("ellipse", c) + w + (s, e)]


def e_poly(*p):
    return [pt(*q) for q in p], [("line", p[i - 1], p[i]) for i in range(1, len(p))]


def e_cat(alpha, closed, *p):
    from yapcad.geom import catmullrom
    return catmullrom([pt(*q) for q in p], alpha=alpha, closed=bool(closed)), [("cat", alpha, closed, p)]


def e_nurbs(weights, *p):
    from yapcad.geom import nurbs
    return nurbs([pt(*q) for q in p], degree=min(3, len(p) - 1), weights=list(weights)), [("nurbs", weights, p)]


def e_point(*c):
    return pt(*c), [("x", c), ("o", c)]


def e_list(*items):
    out = [make(i) for i in items]
    return [g for g, _ in out], [w for _, ws in out for w in ws]


def e_geom(kind, *args):
    from yapcad.poly import Circle, Line, Point, Polygon, Arc
    if kind == "Line":
        return Line(pt(*args[0]), pt(*args[1])), [("line",) + args]
    if kind == "Arc":
        return Arc(pt(*args[0]), *args[1:]), [("arc",) + args]
    if kind == "Polygon":
        p = args + args[:1]
        return Polygon([pt(*q) for q in args]), [("line", p[i - 1], p[i]) for i in range(1, len(p))]
    raise AssertionError


def make(spec):
    return globals()["e_" + spec[0]](*spec[1:])


# ---------------------------------------------------------------- reading
def f2(p):
    return float(p[0]), float(p[1])


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def close(a, b, tol=1e-6):
    return dist(a, b) <= tol


def span(s, e):
    """degrees covered, by the rule of the library"""
    if (s, e) == (0, 360):
        return 360.
    return (e % 360 - s % 360) % 360


def on_arc(c, r, s, e, n=9):
    w = span(s, e)
    return [(c[0] + r * math.cos(math.radians(s + w * i / (n - 1))), c[1] + r * math.sin(math.radians(s + w * i / (n - 1)))) for i in range(n)]


def on_ellipse(c, a, b, rot, s, e, n=9):
    if (s, e) == (0, 360):
        t = [360 * i / (n - 1) for i in range(n)]
    else:
        if e < s:
            e += 360
        t = [s + (e - s) * i / (n - 1) for i in range(n)]
    R = math.radians(rot)
    out = []
    for x in t:
        x = math.radians(x)
        u, v = a * math.cos(x), b * math.sin(x)
        out.append((c[0] + u * math.cos(R) - v * math.sin(R), c[1] + u * math.sin(R) + v * math.cos(R)))
    return out


def drawn(ent, n=9):
    """points along an entity"""
    k = ent.dxftype()
    if k == "LINE":
        a, b = f2(ent.dxf.start), f2(ent.dxf.end)
        return [(a[0] + (b[0] - a[0]) * i / (n - 1), a[1] + (b[1] - a[1]) * i / (n - 1)) for i in range(n)]
    if k == "CIRCLE":
        return on_arc(f2(ent.dxf.center), ent.dxf.radius, 0, 360, n)
    if k == "ARC":
        s, e = ent.dxf.start_angle, ent.dxf.end_angle
        w = (e - s) % 360 or 360.
        c, r = f2(ent.dxf.center), ent.dxf.radius
        return [(c[0] + r * math.cos(math.radians(s + w * i / (n - 1))), c[1] + r * math.sin(math.radians(s + w * i / (n - 1)))) for i in range(n)]
    if k == "ELLIPSE":
        c, m, q = f2(ent.dxf.center), f2(ent.dxf.major_axis), ent.dxf.ratio
        require(1e-6 <= q <= 1, "ratio of an ellipse %r" % q)
        s, e = ent.dxf.start_param, ent.dxf.end_param
        w = (e - s) % TAU
        if w < 1e-9:
            w = TAU
        out = []
        for i in range(n):
            t = s + w * i / (n - 1)
            out.append((c[0] + m[0] * math.cos(t) - q * m[1] * math.sin(t), c[1] + m[1] * math.cos(t) + q * m[0] * math.sin(t)))
        return out
    require(False, "entity %s" % k)


def same(a, b, tol=1e-6):
    """the same curve, in either sense"""
    return len(a) == len(b) and (all(close(p, q, tol) for p, q in zip(a, b)) or all(close(p, q, tol) for p, q in zip(a, b[::-1])))


def knots(n, d):
    return [0.] * (d + 1) + [i / (n - d) for i in range(1, n - d)] + [1.] * (d + 1)


def bspline(weights, p, u):
    d, n = min(3, len(p) - 1), len(p)
    K = knots(n, d)
    k = min(max(i for i in range(n) if K[i] <= u), n - 1)
    D = [(weights[i] * p[i][0], weights[i] * p[i][1], weights[i]) for i in range(k - d, k + 1)]
    for r in range(1, d + 1):
        for j in range(d, r - 1, -1):
            i = k - d + j
            t = (u - K[i]) / (K[i + d - r + 1] - K[i])
            D[j] = tuple((1 - t) * a + t * b for a, b in zip(D[j - 1], D[j]))
    x, y, w = D[d]
    return x / w, y / w


def curve(w):
    """points along a spline, dense, and its natural ends"""
    if w[0] == "nurbs":
        return [bspline(w[1], w[2], i / 600) for i in range(601)], False
    _, alpha, closed, p = w
    n = len(p) if closed else len(p) - 1
    return [catmull([q + (0,) for q in p], closed, alpha, k / 120 / n) for k in range(120 * n + 1)], bool(closed)


def seg_dist(q, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    L = d[0] ** 2 + d[1] ** 2
    t = 0 if L == 0 else min(1, max(0, ((q[0] - a[0]) * d[0] + (q[1] - a[1]) * d[1]) / L))
    return dist(q, (a[0] + t * d[0], a[1] + t * d[1]))


def chain(ents, w):
    """the leading LINEs are a chain along the spline; -> how many"""
    C, closed = curve(w)
    size = max(dist(C[0], c) for c in C)
    V, k = [], 0
    while k < len(ents) and ents[k].dxftype() == "LINE":
        a, b = f2(ents[k].dxf.start), f2(ents[k].dxf.end)
        if V and not close(a, V[-1]):
            break
        if not V:
            V.append(a)
        require(not close(a, b, 1e-12), "a spline is drawn with a line of no length")
        V.append(b)
        k += 1
        if close(b, C[-1]) and len(V) > 4:
            break
    require(V, "a spline is not drawn")
    require(close(V[0], C[0]) and close(V[-1], C[-1]), "a spline from %r to %r is drawn from %r to %r" % (C[0], C[-1], V[0], V[-1]))
    at = 0
    for v in V:
        tol, hit = 2e-4 * (1 + size), None
        for i in range(at, len(C) - 1):
            if seg_dist(v, C[i], C[i + 1]) < tol:
                hit = i
                break
        require(hit is not None, "a spline is drawn through %r, off the curve or out of order" % (v,))
        at = hit
    off = max(min(seg_dist(c, V[i], V[i + 1]) for i in range(len(V) - 1)) for c in C[::7])
    require(off < .04 * size, "the drawing is %g off a spline of size %g" % (off, size))
    return k


def match(ents, want, size=.1):
    """the entities are exactly the wanted elements, in order"""
    i = 0
    for w in want:
        if w[0] in ("cat", "nurbs"):
            i += chain(ents[i:], w)
            continue
        if w[0] == "x":
            require(len(ents) > i + 1, "no marker")
            (x, y), d = f2(w[1]), size
            got = [[f2(e.dxf.start), f2(e.dxf.end)] for e in ents[i:i + 2]]
            ref = [[(x - d, y - d), (x + d, y + d)], [(x - d, y + d), (x + d, y - d)]]
            require(all(same(g, r) for g, r in zip(got, ref)), "marker %r at %r" % (got, w[1]))
            i += 2
            continue
        require(i < len(ents), "the drawing ends before %r" % (w,))
        e = ents[i]
        i += 1
        if w[0] == "line":
            ref = [f2(w[1]), f2(w[2])]
            require(e.dxftype() == "LINE" and same([f2(e.dxf.start), f2(e.dxf.end)], ref), "%r is drawn as %s" % (w, e.dxfattribs()))
        elif w[0] == "o":
            require(e.dxftype() == "CIRCLE" and close(f2(e.dxf.center), f2(w[1])) and abs(e.dxf.radius - size) < 1e-9, "marker %s at %r" % (e.dxfattribs(), w[1]))
        elif w[0] == "arc":
            require(e.dxftype() == ("CIRCLE" if span(*w[3:]) == 360 else "ARC"), "%r is drawn as %s" % (w, e.dxftype()))
            require(same(drawn(e), on_arc(*w[1:])), "%r is drawn as %s" % (w, e.dxfattribs()))
        elif w[0] == "ellipse":
            require(e.dxftype() == "ELLIPSE", "%r is drawn as %s" % (w, e.dxftype()))
            require(same(drawn(e), on_ellipse(*w[1:])), "%r is drawn as %s" % (w, e.dxfattribs()))
        else:
            raise AssertionError(w)
    require(i == len(ents), "%d entities too many" % (len(ents) - i))


def read(path):
    import ezdxf
    doc = ezdxf.readfile(path)
    errs = doc.audit()
    require(not errs.errors and not errs.fixes, "the file has errors: %r" % [x.message for x in errs.errors + errs.fixes])
    require(doc.header["$INSUNITS"] == 4, "units %r" % doc.header["$INSUNITS"])
    return list(doc.modelspace())


def scratch():
    return tempfile.TemporaryDirectory(prefix="p34")


def judge_one(case):
    spec, how = case
    from yapcad.ezdxf_drawable import ezdxfDraw
    from yapcad.ezdxf_exporter import is_2d_geometry, write_dxf, write_dxf_multi
    geom, want = make(spec)
    keep = repr(geom)
    with scratch() as t:
        path = os.path.join(t, "a.dxf")
        if how == "draw":
            d = ezdxfDraw()
            d.filename = path[:-4]
            d.draw(geom)
            d.display()
        elif how == "write":
            require(write_dxf(geom, path) is True, "not written")
        else:
            require(write_dxf_multi([geom], path) is True, "not written")
        ents = read(path)
        require(os.listdir(t) == ["a.dxf"], "files %r" % os.listdir(t))
    match(ents, want)
    require(spec[0] == "geom" or repr(geom) == keep, "drawing changes the geometry")
    lay = {"draw": "0"}.get(how, "PATHS")
    require({e.dxf.layer for e in ents} <= {lay} and {e.dxf.color for e in ents} <= {256}, "layers %r, colours %r" % ({e.dxf.layer for e in ents}, {e.dxf.color for e in ents}))
    if spec[0] != "geom" and spec != ("list",) and not (spec[0] == "list" and spec[1][0] == "geom"):
        require(is_2d_geometry(geom), "no 2D geometry")
    return Out("one %s" % spec[0], steps=len(ents))


MOVES2 = {"rotate": 30, "turn": 215, "translate": (3, -4), "scale": 2.5, "mirror": "xz"}


def judge_moved(case):
    """a transformed element is drawn where its samples are"""
    spec, ops = case
    from yapcad import geom
    from yapcad.ezdxf_exporter import write_dxf
    g, _ = make(spec)
    for op in ops:
        if op in ("rotate", "turn"):
            g = geom.rotate(g, MOVES2[op])
        elif op == "translate":
            g = geom.translate(g, pt(*MOVES2[op]))
        elif op == "scale":
            g = geom.scale(g, MOVES2[op])
        else:
            g = geom.mirror(g, MOVES2[op])
    with scratch() as t:
        path = os.path.join(t, "a.dxf")
        require(write_dxf(g, path) is True, "not written")
        ents = read(path)
    # where the element is, from its definition and the moves
    ref = {"line": lambda: [(lambda a, b: (a[0] + (b[0] - a[0]) * i / 8, a[1] + (b[1] - a[1]) * i / 8))(spec[1], spec[2]) for i in range(9)],
           "arc": lambda: on_arc(*spec[1:5]), "circle": lambda: on_arc(spec[1], spec[2], 0, 360, 9), "ellipse": lambda: on_ellipse(*make(spec)[1][0][1:])}[spec[0]]()
    for op in ops:
        if op in ("rotate", "turn"):
            a = math.radians(MOVES2[op])
            ref = [(x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)) for x, y in ref]
        elif op == "translate":
            ref = [(x + MOVES2[op][0], y + MOVES2[op][1]) for x, y in ref]
        elif op == "scale":
            ref = [(x * MOVES2[op], y * MOVES2[op]) for x, y in ref]
        else:
            ref = [(x, -y) for x, y in ref]
    require(len(ents) == 1, "%d entities" % len(ents))
    e = ents[0]
    if spec[0] == "circle":
        require(e.dxftype() == "CIRCLE", "a circle is drawn as %s %s" % (e.dxftype(), e.dxfattribs()))
        c = tuple(sum(p[k] for p in ref[:-1]) / 8 for k in (0, 1))
        require(close(f2(e.dxf.center), c) and abs(e.dxf.radius - dist(c, ref[0])) < 1e-6, "circle %s for %r" % (e.dxfattribs(), ref))
    else:
        got = drawn(e)
        if spec[0] == "ellipse" and span(*spec[5:]) in (0, 360):
            require(e.dxftype() == "ELLIPSE", "drawn as %s" % e.dxftype())
            q = e.dxf.ratio * math.hypot(*f2(e.dxf.major_axis))
            c, m = f2(e.dxf.center), f2(e.dxf.major_axis)
            L = math.hypot(*m)
            for p in ref:
                u = ((p[0] - c[0]) * m[0] + (p[1] - c[1]) * m[1]) / L
                v = ((p[0] - c[0]) * -m[1] + (p[1] - c[1]) * m[0]) / L
                require(abs((u / L) ** 2 + (v / q) ** 2 - 1) < 1e-6, "%r is not on the ellipse %s" % (p, e.dxfattribs()))
            require(all(close(a, b) for a, b in zip(got[:1], got[-1:])), "a whole ellipse is drawn as %s" % e.dxfattribs())
        else:
            require(same(got, ref), "moved by %r, %r is drawn as %s" % (ops, spec, e.dxfattribs()))
    return Out("moved %s" % spec[0], steps=len(ops))


COLORS = {False: 256, 1: 1, 7: 7, 255: 255, "red": 1, "white": 7, "aqua": 4, "black": None, "navy": 174, "lime": 3, (255, 0, 0): 1, (0, 255, 0): 3, (191, 0, 255): 200, (90, 91, 92): 252, (0, 0, 0): None}


def judge_state(case):
    """a history of settings and drawings: every entity has the state of its time"""
    from yapcad.ezdxf_drawable import ezdxfDraw
    d = ezdxfDraw()
    want, layer, color, size, style, poly = [], "0", 256, .1, "xo", "lines"
    for op, arg in case:
        if op == "layer":
            d.layer = arg
            layer = arg or "0"
        elif op == "color":
            d.linecolor = list(arg) if isinstance(arg, tuple) else arg
            color = COLORS[arg]
        elif op == "size":
            d.pointsize, size = arg, arg
        elif op == "style":
            d.pointstyle, style = arg, arg
        elif op == "poly":
            d.polystyle, poly = arg, arg
        elif op == "bad":
            attr, val = arg
            try:
                setattr(d, attr, val)
            except ValueError:
                continue
            require(False, "%s = %r is accepted" % (attr, val))
        elif op == "draw":
            geom, ws = make(arg)
            d.draw(geom)
            if arg[0] == "poly":
                pts = [x for q in arg[1:] for x in ([("x", q)] if "x" in style else []) + ([("o", q)] if "o" in style else [])] if poly != "lines" else []
                ws = pts + (ws if poly != "points" else [])
            elif arg[0] == "point":
                ws = [w for w in ws if w[0] in style]
            want += [(w, layer, color, size) for w in ws]
        elif op == "text":
            d.draw_text(arg, pt(1, 2))
            want.append((("text", arg), layer, color, 0))
    with scratch() as t:
        d.filename = os.path.join(t, "out")
        d.display()
        ents = read(os.path.join(t, "out.dxf"))
    i = 0
    for w, layer, color, size in want:
        n = 2 if w[0] == "x" else 1
        part = ents[i:i + n]
        i += n
        require(len(part) == n, "%r is not drawn" % (w,))
        if w[0] == "text":
            require(part[0].dxftype() == "TEXT" and part[0].dxf.text == w[1] and close(f2(part[0].dxf.insert), (1, 2)), "text %s" % part[0].dxfattribs())
        else:
            match(part, [w], size)
        for e in part:
            require(e.dxf.layer == layer, "%r on the layer %r, not %r" % (w, e.dxf.layer, layer))
            if color is not None:
                require(e.dxf.color == color, "%r in colour %r, not %r" % (w, e.dxf.color, color))
            else:
                require(1 <= e.dxf.color <= 255, "%r in black has the colour %r, which is no colour" % (w, e.dxf.color))
    require(i == len(ents), "%d entities too many" % (len(ents) - i))
    return Out("state", steps=len(case))


PATHS = {"a.dxf": "a.dxf", "a": "a.dxf", "a.v1": "a.v1.dxf", "a.v1.dxf": "a.v1.dxf", "d.x/a": "d.x/a.dxf", "d.x/a.dxf": "d.x/a.dxf", "a b.dxf": "a b.dxf", ".dxf": ".dxf.dxf"}


def judge_path(case):
    name, multi, before = case
    from yapcad.ezdxf_exporter import write_dxf, write_dxf_multi
    g, want = make(("line", (0, 0), (1, 2)))
    with scratch() as t:
        os.mkdir(os.path.join(t, "d.x"))
        want_path = os.path.join(t, PATHS[name])
        if before:
            with open(want_path, "w") as fh:
                fh.write("old" * 100000)
        ok = write_dxf_multi([g], os.path.join(t, name)) if multi else write_dxf(g, os.path.join(t, name))
        require(ok is True, "not written")
        files = [os.path.relpath(os.path.join(d, f), t) for d, _, fs in os.walk(t) for f in fs]
        require(files == [PATHS[name]], "files %r for %r" % (files, name))
        match(read(want_path), want)
    return Out("path")


BAD = [None, 3, "text", [1, 2], [[1, 2], "x"], {"a": 1}]


def judge_bad(case):
    """what cannot be drawn is reported, and a file that is there stays"""
    i, first, multi, before = case
    from yapcad.ezdxf_exporter import is_2d_geometry, write_dxf, write_dxf_multi
    g, _ = make(("line", (0, 0), (1, 2)))
    bad = BAD[i]
    require(not is_2d_geometry(bad), "%r is 2D geometry" % (bad,))
    with scratch() as t:
        path = os.path.join(t, "a.dxf")
        if before:
            with open(path, "w") as fh:
                fh.write("old")
        seq = [bad, g] if first else [g, bad]
        try:
            ok = write_dxf_multi(seq, path) if multi else write_dxf(seq, path)
        except ValueError:
            ok = False
        require(ok is False, "%r is written" % (bad,))
        require(os.listdir(t) == ["a.dxf"][:before], "files %r" % os.listdir(t))
        if before:
            with open(path) as fh:
                require(fh.read() == "old", "the old file is overwritten")
    return Out("bad")


def judge_multi(case):
    """one layer for all, or a list whose last goes on"""
    n, layers = case
    from yapcad.ezdxf_exporter import write_dxf_multi
    parts = [("line", (k, 0), (k, 1)) for k in range(n)]
    with scratch() as t:
        path = os.path.join(t, "a.dxf")
        ok = write_dxf_multi([make(p)[0] for p in parts], path, list(layers) if isinstance(layers, tuple) else layers)
        require(ok is True, "not written")
        ents = read(path)
    match(ents, [w for p in parts for w in make(p)[1]])
    want = [layers if isinstance(layers, str) else layers[min(k, len(layers) - 1)] for k in range(n)]
    require([e.dxf.layer for e in ents] == want, "layers %r for %r" % ([e.dxf.layer for e in ents], layers))
    return Out("multi")


P = [(0, 0), (4, 1), (5, 4), (1, 5), (-2, 2)]


def run(ctx):
    ang = [0, 30, 90, 180, 270, 345, 360, -45, 405, 720.5]
    els = [("line", a, b) for a in P for b in P if a != b]
    els += [("arc", c, r, s, e, v) for c in P[:2] for r in (.01, 1, 250) for s in ang for e in ang for v in (0, 1) if (s, e) == (0, 360) or span(s, e)]
    els += [("circle", c, r) for c in P for r in (.01, 2, 1e4)]
    els += [("ellipse", c, a, b, rot, s, e) for c in P[:2] for a in (1, 3) for b in (1, 2, 3) for rot in (0, 30, 90, 200, -15) for s, e in ((0, 360), (0, 90), (30, 200), (200, 30), (350, 10), (180, 360), (0., 360.), (90, 450))]
    els += [("poly",) + p for n in (3, 4, 5) for q in itertools.permutations(P, n) for p in (q, q + q[:1])][::3]
    els += [("poly",) + p for n in (3, 4, 5) for p in itertools.product(P[:3], repeat=n) if all(a != b for a, b in zip(p, p[1:]))]
    els += [("cat", al, cl) + p for n in (3, 4, 5) for p in itertools.permutations(P, n) for al in (0., .5, 1.) for cl in (0, 1)][::ctx.pick(5, 1)]
    els += [("nurbs", w[:n]) + p for n in (2, 3, 4, 5) for p in itertools.permutations(P, n) for w in ((1, 1, 1, 1, 1), (1, 3, .5, 1, 2))][::ctx.pick(3, 1)]
    els += [("point",) + p for p in P]
    els += [("geom", "Line", a, b) for a in P for b in P if a != b]
    els += [("geom", "Arc", c, 2., s, e) for c in P for s in (0, 30, 200) for e in (90, 20, 350)]
    els += [("geom", "Polygon") + p for p in itertools.permutations(P, 3)]
    base = [("line", (0, 0), (4, 1)), ("arc", (0, 0), 2, 30, 200, 0), ("circle", (1, 1), 3), ("ellipse", (1, 2), 3, 1, 20, 30, 200), ("poly",) + tuple(P[:3]), ("cat", .5, 1) + tuple(P), ("nurbs", (1, 2, 1, 1), *P[:4]), ("point", 1, 2), ("geom", "Polygon") + tuple(P[:3])]
    els += [("list", a) for a in base] + [("list", a, b) for a in base for b in base if (a[0], b[0]) != ("point", "point")] + [("list", a, ("list", b, ("list", c)), a) for a in base for b in base for c in base[:3]]
    one = [(e, h) for e in els for h in ("draw", "write", "multi") if h == "write" or len(repr(e)) % 3 == 0]
    mv = [("line", (0, 0), (4, 1)), ("arc", (1, 2), 2, 30, 200, 0), ("arc", (1, 2), 2, 300, 40, 1), ("circle", (1, 1), 3)]
    moved = [(m, ops) for m in mv for n in range(1, ctx.pick(4, 5)) for ops in itertools.product(MOVES2, repeat=n)]
    ops = [("layer", "DRILLS"), ("layer", "DOCUMENTATION"), ("layer", False), ("size", 2), ("style", "x"), ("style", "o"), ("poly", "points"), ("poly", "both"),
           ("draw", ("line", (0, 0), (1, 2))), ("draw", ("point", 3, 4)), ("draw", ("poly",) + tuple(P[:3])), ("draw", ("circle", (0, 0), 1)), ("draw", ("arc", (0, 0), 1, 3, 60, 0)), ("draw", ("ellipse", (0, 0), 2, 1, 0, 0, 90)), ("text", "hello"),
           ("bad", ("layer", "nowhere")), ("bad", ("linecolor", "no such")), ("bad", ("linecolor", (1, 2))), ("bad", ("polystyle", "dots")), ("bad", ("linetype", "DASHED"))] + [("color", c) for c in ((255, 0, 0), "navy")]
    st = [tuple(h) + (("draw", ("line", (0, 0), (1, 2))), ("draw", ("point", 3, 4))) for n in range(0, 3) for h in itertools.product(ops, repeat=n)]
    st += [(("color", c), ("draw", k), ("color", False), ("draw", k)) for c in COLORS for k in (("line", (0, 0), (1, 2)), ("circle", (0, 0), 1), ("arc", (0, 0), 1, 3, 60, 0), ("ellipse", (0, 0), 2, 1, 0, 0, 90))]
    lay = ["PATHS", "0", "DRILLS", ("DRILLS",), ("DRILLS", "PATHS"), ("0", "PATHS", "DOCUMENTATION", "DRILLS")]
    ctx.explore(judge, [("one", one, 30), ("moved", moved, 30), ("state", st, 30), ("path", list(itertools.product(PATHS, (0, 1), (0, 1)))),
                        ("bad", list(itertools.product(range(len(BAD)), (0, 1), (0, 1), (0, 1)))), ("multi", [(n, l) for n in range(0, 5) for l in lay])])
