"""P32: figure objects answer the same whatever was asked of them before."""
import contextlib
import copy
import io
import itertools
import math

from mc import fig2 as F
from mc.core import Out, h, require

META = {
    "id": "P32",
    "title": "Figure objects are independent of the history of queries",
    "statement": "After any sequence of edits, what a `Geometry`, `Polygon` or `Boolean` reports (geom, bbox, length, center, samples, inside tests, intersections, surface) equals what a fresh object given the same edits without queries in between reports, and what the corresponding functions give for its geometry; a cached answer never outlives an edit. Objects share nothing with the values they were made from, with the operands they combine, or with the geometry they hand out.",
    "over": ["histories"],
    "forall": "every sequence of edits to a bounded depth over each kind of figure object, with every choice of queries made before and between them, including changes made by the caller to values passed in or handed out",
    "why": "Lazily cached answers go stale only for particular orders of queries and edits; the suite queries objects once.",
    "files": ["src/yapcad/geometry.py", "src/yapcad/poly.py", "src/yapcad/combine.py"],
    "mech": [["cache flag", "geometry.py:Geometry._setUpdate"], ["queries", "geometry.py:Geometry._updateInternals"], ["surfaces", "geometry.py:Geometry.surface"], ["outlines", "poly.py:Polygon._updateInternals"], ["combinations", "combine.py:Boolean._updateInternals"]],
    "technique": "explicit-state exploration of all histories of queries and edits to a bounded depth on the real objects, each compared with a query-free twin and with direct computation",
    "note": "depth 2 with any single query before each edit, depth 3 with all or no queries (quick); one level deeper when thorough",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    with contextlib.redirect_stdout(io.StringIO()):
        return globals()["judge_" + kind](tup(case))


def P(x, y, z=0.0):
    from yapcad.geom import point
    return point(x, y, z)


def raw(name):
    from yapcad import geom as G
    sq = [P(0, 0), P(4, 0), P(4, 3), P(0, 3), P(0, 0)]
    return {
        "point": lambda: P(1, 2),
        "line": lambda: G.line(P(0, 0), P(3, 1)),
        "arc": lambda: G.arc(P(1, 1), 2.0, 30, 200),
        "circle": lambda: G.arc(P(1, 1), 2.0),
        "poly": lambda: sq,
        "open": lambda: [P(0, 0), P(2, 0), P(2, 3)],
        "list": lambda: [G.line(P(-2, -1), P(2, -1)), G.arc(P(2, 0), 1.0, 270, 90), G.line(P(2, 1), P(-2, 1)), G.arc(P(-2, 0), 1.0, 90, 270)],
        "box": lambda: box(),
    }[name]()


def box():
    from yapcad.geom3d_util import prism
    return prism(2, 3, 4, P(0.5, 0, 0))


def make(name):
    from yapcad import geom as G
    from yapcad.combine import Boolean
    from yapcad.geometry import Geometry
    from yapcad.poly import Polygon

    if name == "rect":
        p = Polygon()
        for q in (P(0, 0), P(4, 0), P(4, 3), P(0, 3)):
            p.addPoint(q)
        return p
    if name == "round":
        return Polygon([G.arc(P(0, 0), 0.5), P(5, 0), G.arc(P(4, 4), 1.0)])
    if name in ("union", "difference", "intersection"):
        c = Geometry(G.arc(P(3, 1), 2.0))
        return Boolean(name, [make("rect"), c])
    if name == "empty":
        return Boolean("intersection", [make("rect"), Geometry(G.arc(P(30, 1), 2.0))])
    return Geometry(raw(name))


SIMPLE = ("point", "line", "arc", "circle", "poly", "open", "list", "box")
DERIVED = ("rect", "round", "union", "difference", "intersection", "empty")
CLOSED = ("circle", "poly", "list") + DERIVED

# edits --------------------------------------------------------------------

EDITS = {
    "move": ("t", (1.0, -2.0, 0.0)),
    "turn": ("r", 90.0, (1.0, 1.0, 0.0)),
    "grow2": ("s", 2.0, (1.0, 0.0, 0.0)),
    "flip": ("m", "yz"),
    "flop": ("m", "xz"),
    "matrix": ("x",),
    "add": ("p",),
    "set": ("q",),
    "addarc": ("a",),
    "drop": ("d",),
    "offset": ("g",),
}


def edits(name):
    e = ["move", "turn", "grow2", "flip"]
    if name in ("union", "difference", "rect"):
        e.append("flop")
    if name not in ("arc", "circle", "list", "rect", "round", "box", "union", "difference", "intersection", "empty"):
        e.append("matrix")
    if name == "rect":
        e += ["add", "set", "drop", "offset"]
    if name == "round":
        e += ["addarc", "offset"]
    return e


def apply(o, e):
    from yapcad import geom as G
    from yapcad.xform import Translation

    if e == "move":
        o.translate(P(1, -2))
    elif e == "turn":
        o.rotate(90.0, P(1, 1))
    elif e == "grow2":
        o.scale(2.0, cent=P(1, 0))
    elif e == "flip":
        o.mirror("yz")
    elif e == "flop":
        o.mirror("xz")
    elif e == "matrix":
        o.transform(Translation(G.vect(0.5, 0.25, 0)))
    elif e == "add":
        o.addPoint(P(-1, 1.5))
    elif e == "set":
        o.setPoint(0, P(-0.5, -0.5))
    elif e == "addarc":
        o.addArc(G.arc(P(1, 4), 0.75))
    elif e == "drop":
        o.remove(o.elem[-1])
    elif e == "offset":
        o.grow(0.5)


def on_value(v, e, name):
    """the same edit by the functions on plain geometry"""
    from yapcad import geom as G
    from yapcad import geom3d as G3
    from yapcad.xform import Translation

    M = G3 if name == "box" else G
    if e == "move":
        return M.translate(v, P(1, -2))
    if e == "turn":
        return M.rotate(v, 90.0, P(1, 1))
    if e == "grow2":
        return M.scale(v, 2.0, cent=P(1, 0))
    if e in ("flip", "flop"):
        w = M.mirror(v, "yz" if e == "flip" else "xz")
        if name in ("point", "box"):
            return w
        return G.reverseGeomList([w])[0] if name in ("arc", "circle") else G.reverseGeomList(w)
    return G.transform(v, Translation(G.vect(0.5, 0.25, 0)))


# queries --------------------------------------------------------------------

def q_inside(o):
    b = o.bbox
    if not b:
        return None
    xs = [b[0][0] + (b[1][0] - b[0][0]) * t for t in (0.11, 0.43, 0.87)]
    ys = [b[0][1] + (b[1][1] - b[0][1]) * t for t in (0.17, 0.52, 0.91)]
    return [o.isinsideXY(P(x, y)) for x in xs for y in ys]


def q_cross(o):
    from yapcad import geom as G
    return sorted([round(c, 6) + 0.0 for c in p[:2]] for p in (o.intersectXY(G.line(P(-20, -14.3), P(20, 15.1))) or []))


def q_surface(o):
    return [o.surface(), True, True]


def q_surfaces(o):
    a = o.surface(10.0, 0.4)
    b = o.surface()
    return [b, o.surface(10.0, 0.4) == a, o.surface() == b]


def q_geom(o):
    v = o.geom
    return [v[0], [s[:4] for s in v[1]]] if v and v[0] == "solid" else v


QUERIES = {
    "geom": q_geom,
    "bbox": lambda o: o.bbox,
    "length": lambda o: o.length,
    "center": lambda o: o.center,
    "sample": lambda o: [o.sample(u) for u in (0.1, 0.45, 0.8)],
    "inside": q_inside,
    "cross": q_cross,
    "surface": q_surface,
}


def queries(name):
    q = ["geom", "bbox", "length", "center"]
    if name == "box":
        return q
    if name != "empty":
        q.append("sample")
    if name != "point":
        q += ["inside", "cross"] if name != "empty" else ["inside"]
    if name in CLOSED:
        q.append("surface")
    return q


def same(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, (str, dict)):
        return (isinstance(a, dict) and isinstance(b, dict)) or a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * max(1.0, abs(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and (a == b or all(same(x, y, tol) for x, y in zip(a, b)))
    return False


def area2(loop):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(loop, loop[1:]))


def expected(name, v, what, got):
    """direct computation from the plain geometry v"""
    from yapcad import geom as G
    from yapcad import geom3d as G3

    cut = (lambda w: [x[:4] for x in w[1]]) if name == "box" else (lambda w: w)
    require(same(cut(got["geom"]), cut(v), 1e-6), "%s: geom is %r, direct computation gives %r" % (what, got["geom"], v))
    if name == "box":
        xs = [p for s in v[1] for p in s[1]]
        b = [[f(p[i] for p in xs) for i in range(3)] for f in (min, max)]
        require(all(abs(got["bbox"][k][i] - b[k][i]) < 1e-6 for k in (0, 1) for i in range(3)), "%s: bbox %r, the vertices span %r" % (what, got["bbox"], b))
        require(all(abs(got["center"][i] - (b[0][i] + b[1][i]) / 2) < 1e-6 for i in range(3)), "%s: center %r of a box spanning %r" % (what, got["center"], b))
        return
    f = F.parse(v)
    b = F.bounds(f)
    require(all(abs(got["bbox"][k][i] - b[k][i]) < 1e-4 for k in (0, 1) for i in range(3)), "%s: bbox %r, expected %r" % (what, got["bbox"], b))
    require(abs(got["length"] - F.length(f)) < 1e-5, "%s: length %r, expected %r" % (what, got["length"], F.length(f)))
    for p, u in zip(got["sample"], (0.1, 0.45, 0.8)):
        require(min(F.dist(p, w) for w in F.sample(f, u)) < 1e-4, "%s: sample(%r) is %r" % (what, u, p))


def report(o, names):
    out = {}
    for n in names:
        try:
            out[n] = copy.deepcopy(QUERIES[n](o))
        except ValueError as e:
            out[n] = "refused: ValueError"
    return out


def judge_hist(case):
    """(object, ((queries before the edit, edit), ...), order of final queries)"""
    name, steps, rev = case
    a, b = make(name), make(name)
    names = queries(name)
    for qs, e in steps:
        for q in names if qs == "*" else ((qs,) if qs else ()):
            try:
                QUERIES[q](a)
            except ValueError:
                pass
        apply(a, e)
        apply(b, e)
    ra = report(a, names[::-1] if rev else names)
    rb = report(b, names)
    what = "%s after %s" % (name, ", ".join("%s%s" % ("(%s) " % q if q else "", e) for q, e in steps))
    for n in names:
        require(same(ra[n], rb[n]), "%s: %s is %.300r, without the earlier queries %.300r" % (what, n, ra[n], rb[n]))
    if len(steps) < 2 and "surface" in names:
        rb["surface"] = report(b, ["surface"])["surface"]
        ra["surface"] = "refused: ValueError" if isinstance(rb["surface"], str) else copy.deepcopy(q_surfaces(a))
    again = report(a, names)
    for n in names:
        require(same(again[n], ra[n]), "%s: asked again, %s is %.300r instead of %.300r" % (what, n, again[n], ra[n]))
    if name in SIMPLE:
        v = raw(name)
        for _, e in steps:
            v = on_value(v, e, name)
        require(not any(isinstance(x, str) for x in ra.values()), "%s: refused %r" % (what, ra))
        expected(name, v, what, dict(ra, sample=ra.get("sample", ())))
    elif name != "empty" and ra["geom"]:
        f = F.parse(ra["geom"])
        bx = F.bounds(f)
        require(all(abs(ra["bbox"][k][i] - bx[k][i]) < 1e-4 for k in (0, 1) for i in (0, 1)), "%s: bbox %r of %r" % (what, ra["bbox"], bx))
        require(abs(ra["length"] - F.length(f)) < 1e-4, "%s: length %r of an outline of length %r" % (what, ra["length"], F.length(f)))
        for p in ra["sample"]:
            require(F.to_figure(f, p) < 1e-4, "%s: a sample is not on the outline" % what)
        if not isinstance(ra["surface"], str):
            moved(name, steps, f, what)
    if not isinstance(ra.get("surface", ""), str) and ra["geom"]:
        s = ra["surface"]
        require(s[1] and s[2], "%s: surface() depends on the parameters of the previous call" % what)
        es = {e for _, e in steps}
        if s[0] and "addarc" not in es and not ("offset" in es and es & {"add", "set"}) and simple(F.parse(ra["geom"])):
            check_surface(s[0], F.parse(ra["geom"]), what)
    st = h((name, repr(rb["geom"])[:4000]))
    return Out("%s %d" % (name, len(steps)), [st], len(steps) + sum(len(names) if q == "*" else bool(q) for q, _ in steps))


def simple(f):
    from mc.props.p12_inside import flat
    ss = flat(f) if len(flat(f)) < 40 and f[0] == "gl" else []
    side = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return not any(side(*s, t[0]) * side(*s, t[1]) < 0 and side(*t, s[0]) * side(*t, s[1]) < 0 for s, t in itertools.combinations(ss, 2))


def check_surface(s, f, what):
    from mc.props.p12_inside import flat
    tri = 0.0
    for t in s[3]:
        p, q, r = (s[1][i] for i in t)
        tri += ((q[0] - p[0]) * (r[1] - p[1]) - (r[0] - p[0]) * (q[1] - p[1])) / 2
    ref = abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in flat(f)) / 2)
    L = F.length(f)
    require(abs(abs(tri) - ref) < 0.02 * ref + 0.02 * L, "%s: the surface has area %r, the outline encloses %r" % (what, tri, ref))


RIGID = {"move": 1.0, "turn": 1.0, "grow2": 2.0, "flip": 1.0, "flop": 1.0, "matrix": 1.0}


def point_edit(p, e):
    x, y = p[0], p[1]
    return {"move": (x + 1, y - 2), "turn": (1 - (y - 1), 1 + (x - 1)), "grow2": (2 * x - 1, 2 * y), "flip": (-x, y), "flop": (x, -y), "matrix": (x + 0.5, y + 0.25)}[e] + (0.0,)


def moved(name, steps, f, what):
    """a derived figure under rigid edits is the moved outline"""
    if not all(e in RIGID for _, e in steps):
        return
    g0 = make(name)
    f0 = F.parse(g0.geom)
    k = 1.0
    for _, e in steps:
        k *= RIGID[e]
    tol = 1e-3 if name in ("rect", "round") else 0.15 * k
    require(abs(F.length(f) - k * F.length(f0)) < tol * 6, "%s: length %r, was %r" % (what, F.length(f), F.length(f0)))
    for l in F.parts(f0) if f0[0] == "gl" else [f0]:
        for u in (0.0, 0.3, 0.77):
            p = F.sample(l, u)[0]
            for _, e in steps:
                p = point_edit(p, e)
            require(F.to_figure(f, p) < tol, "%s: %r should be on the outline" % (what, p))


def judge_surf(case):
    """surfaces asked for in turn with different parameters"""
    name, ps = case
    o = make(name)
    for i, p in enumerate(ps):
        got, want = o.surface(*p), make(name).surface(*p)
        require(same(got, want), "%s: surface%r after %r has %d vertices, a fresh one %d" % (name, p, ps[:i], len(got[1]), len(want[1])))
    return Out("surfaces", steps=len(ps))


def surfs(ctx):
    grid = [(a, l) for a in (5.0, 10.0, 30.0) for l in (0.05, 0.5)]
    for name in CLOSED:
        if name != "empty":
            for c in itertools.product(grid, repeat=2):
                yield (name, c)
            for c in itertools.permutations(grid[:4], 3):
                yield (name, c)


# sharing ---------------------------------------------------------------------

def wreck(v):
    """change every number and list of a value in place"""
    if isinstance(v, list):
        for i, x in enumerate(v):
            if isinstance(x, list):
                wreck(x)
            elif isinstance(x, float):
                v[i] = x + 17.0
        if v and isinstance(v[0], list):
            v.pop()


def judge_share(case):
    """the caller changes what was passed in or handed out; (object, way, queried before)"""
    name, way, before = case
    from yapcad import geom as G
    from yapcad.combine import Boolean
    from yapcad.geometry import Geometry
    from yapcad.poly import Polygon

    twin = report(make(name), queries(name))
    what = "%s, %s%s" % (name, way, " after queries" if before else "")
    if way == "input":
        if name in SIMPLE:
            v = raw(name)
            o = Geometry(v)
        elif name == "round":
            v = [G.arc(P(0, 0), 0.5), P(5, 0), G.arc(P(4, 4), 1.0)]
            o = Polygon(v)
        elif name == "rect":
            v = [P(0, 0), P(4, 0), P(4, 3), P(0, 3)]
            o = Polygon()
            for p in v:
                o.addPoint(p)
        else:
            ops = [make("rect"), Geometry(G.arc(P(30 if name == "empty" else 3, 1), 2.0))]
            o = Boolean("intersection" if name == "empty" else name, ops)
            v = None
        if before:
            report(o, queries(name))
        if v is None:
            for x in ops:
                x.translate(P(5, 5))
        else:
            wreck(v)
    elif way == "copy":
        src = make(name)
        if before:
            report(src, queries(name))
        o = Polygon(src) if name in ("rect", "round") else Geometry(src) if name in SIMPLE else copy.deepcopy(src)
        src.translate(P(5, 5))
        report(src, queries(name))
    elif way == "operand":
        if name not in CLOSED:
            return Out("not an operand")
        o = make(name)
        if before:
            report(o, queries(name))
        b = Boolean("union", [o, Geometry(G.arc(P(1, 1), 3.0))])
        b.translate(P(3, 3))
        b.mirror("yz")
        b.scale(2.0)
        b.rotate(30)
        b.geom
    else:
        o = make(name)
        if before:
            report(o, queries(name))
        g = QUERIES[way](o) if way == "geom" else None
        wreck(g)
    got = report(o, queries(name))
    for n in got:
        require(same(got[n], twin[n]), "%s: %s is %.300r instead of %.300r" % (what, n, got[n], twin[n]))
    return Out("share " + way)


def hists(ctx):
    # the same circle twice in a row has no outline
    for c in all_hists(ctx):
        es = [e for _, e in c[1]]
        if es.count("addarc") < 2 and es.count("drop") < 3 and ("offset" not in es or es.count("add") < 2):
            yield c


def all_hists(ctx):
    for name in SIMPLE + DERIVED:
        es, qs = edits(name), [""] + queries(name)
        slow = name in ("union", "difference", "intersection", "empty")
        yield (name, (), False)
        for e in es:
            for q in qs + ["*"]:
                for rev in (False, True):
                    yield (name, ((q, e),), rev)
        for c in itertools.product(es, repeat=2):
            for q in itertools.product(qs if not slow or ctx.thorough else ["", "geom", "bbox", "surface"], repeat=2):
                if not ctx.thorough and not slow and q[1] not in ("", q[0]) and q[0] not in ("", "surface"):
                    continue
                yield (name, tuple(zip(q, c)), False)
        for n in (3, 4) if ctx.thorough else (3,):
            if slow and not ctx.thorough:
                continue
            for c in itertools.product(es, repeat=n):
                for q in itertools.product(("", "*"), repeat=n):
                    if ctx.thorough or (len(es) < 6 and q != ("",) * n) or q in (("*",) * n, ("", "", "*"), ("*", "", "")):
                        yield (name, tuple(zip(q, c)), n % 2 == 1)


def shares(ctx):
    for name in SIMPLE + DERIVED:
        for way in ("input", "copy", "geom", "operand"):
            for before in (False, True):
                yield (name, way, before)


def run(ctx):
    ctx.explore(judge, [("hist", hists(ctx)), ("share", shares(ctx)), ("surf", surfs(ctx))], batch=60)
    ctx.notes["reference"] = "a twin object given the same edits and no queries; for plain figures also the yapcad.geom functions applied to plain lists, and point arithmetic for moved outlines"
    ctx.assumptions.append("edits go through the objects' methods; `elem` hands out the live element list and is not part of the claim")
