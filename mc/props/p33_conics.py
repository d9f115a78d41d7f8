"""P33: ellipses, parabolas and hyperbolas."""
import copy
import itertools
import math

from mc.core import Out, h, require

META = {
    "id": "P33",
    "title": "Conic curves obey their equations in any plane",
    "statement": "Ellipses, parabolas and hyperbolas evaluate to the defined conic point for every axis ratio, rotation, parameter range and branch, in the plane with the given normal through their center or vertex, and their tangents are the unit derivative there. Length, bounding box, center and `unsample` agree with those points, alone and in a geometry list; a full ellipse closes. The DSL's `ellipse` is the same curve, and degenerate definitions are refused.",
    "over": ["inputs"],
    "forall": "every combination of curve, axes, rotation, range, branch, center and plane normal (axis-parallel either way, tilted, nearly parallel) of the grids, at parameters including both ends",
    "why": "Orientation code has special cases for particular normals and ranges, and the tests use the XY plane.",
    "files": ["src/yapcad/geom.py", "src/yapcad/dsl/runtime/builtins.py"],
    "mech": [["ellipse", "geom.py:ellipse_sample"], ["parabola", "geom.py:parabola_sample"], ["hyperbola", "geom.py:hyperbola_sample"], ["tangent plane", "geom.py:_conic_direction"], ["inverse", "geom.py:_unsample_curve"]],
    "technique": "explicit enumeration of conic definitions, planes and parameters on the real functions, judged by an independent parametric reference with its own frame construction",
    "note": "points to 1e-9, tangents to 1e-9; length to 0.5%, boxes to 1% of the size (documented sampling); ellipses with semi_minor > semi_major are not judged beyond full ones",
}

NORMALS = [None, (0, 0, 1), (0, 0, -1), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -2, 0), (1, 1, 1), (1, -2, 0.5), (-1, 0.5, -2), (0, 0.001, -1), (1e-4, 0, 1), (0, 0, 5)]


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def P(p):
    from yapcad.geom import point
    return point(*map(float, p))


def frame(n):
    """images of x and y when z is turned to n the short way (over x for -z)"""
    n = tuple(map(float, n or (0, 0, 1)))
    m = math.sqrt(sum(c * c for c in n))
    n = tuple(c / m for c in n)
    s = math.hypot(n[0], n[1])
    if s < 1e-12:
        return (1, 0, 0), (0, math.copysign(1, n[2]), 0)
    # t: horizontal direction n leans to; e: the axis of rotation, kept
    t, e = (n[0] / s, n[1] / s, 0), (-n[1] / s, n[0] / s, 0)
    ti = (t[0] * n[2], t[1] * n[2], -s)
    x = tuple(t[0] * a + e[0] * b for a, b in zip(ti, e))
    y = tuple(t[1] * a + e[1] * b for a, b in zip(ti, e))
    return x, y


def local(c, u):
    """point and derivative in the curve's own axes"""
    k, _, par, _, (s, e) = c[:5]
    if k == "ellipse":
        a, b = par
        if e < s:
            e += 360
        w = math.radians(e - s)
        t = math.radians(s) + u * w
        return (a * math.cos(t), b * math.sin(t)), (-a * math.sin(t), b * math.cos(t))
    t = s + u * (e - s)
    if k == "parabola":
        return (t * t / (4 * par[0]), t), (t / (2 * par[0]), 1)
    a, b, br = par
    return (br * a * math.cosh(t), b * math.sinh(t)), (br * a * math.sinh(t), b * math.cosh(t))


def place(c, p, at=True):
    r = math.radians(c[3])
    x, y = p[0] * math.cos(r) - p[1] * math.sin(r), p[0] * math.sin(r) + p[1] * math.cos(r)
    X, Y = frame(c[5])
    o = c[1] if at else (0, 0, 0)
    return tuple(o[i] + x * X[i] + y * Y[i] for i in range(3))


def build(c):
    from yapcad import geom
    k, cen, par, rot, (s, e), n = c
    kw = dict(rotation=rot, start=s, end=e)
    if n is not None:
        kw["normal"] = list(n) + [0.0]
    if k == "ellipse":
        return geom.ellipse(P(cen), par[0], par[1], **kw)
    if k == "parabola":
        return geom.parabola(P(cen), par[0], **kw)
    return geom.hyperbola(P(cen), par[0], par[1], branch=par[2], **kw)


US = (0.0, 0.125, 0.3, 0.5, 0.77, 1.0)


def judge_conic(c):
    from yapcad import geom

    crv = build(c)
    keep = copy.deepcopy(crv)
    sf, tf, lf, bf = {"ellipse": (geom.ellipse_sample, geom.ellipse_tangent, geom.ellipse_length, geom.ellipse_bbox), "parabola": (geom.parabola_sample, geom.parabola_tangent, geom.parabola_length, geom.parabola_bbox),
                      "hyperbola": (geom.hyperbola_sample, geom.hyperbola_tangent, geom.hyperbola_length, geom.hyperbola_bbox)}[c[0]]
    for u in US:
        p, d = local(c, u)
        want = place(c, p)
        s = max(1.0, max(map(abs, want)))
        for name, got in (("%s_sample" % c[0], sf(crv, u)), ("sample", geom.sample(crv, u))):
            require(len(got) == 4 and got[3] == 1 and all(abs(a - b) < 1e-9 * s for a, b in zip(got, want)), "%s of %r at %s is %r, should be %r" % (name, c, u, got, want))
        d = place(c, d, False)
        m = math.sqrt(sum(x * x for x in d))
        got = tf(crv, u)
        require(len(got) == 4 and got[3] == 0 and all(abs(a - b / m) < 1e-9 for a, b in zip(got, d)), "tangent of %r at %s is %r, should be %r" % (c, u, got, [x / m for x in d]))
    ps = [place(c, local(c, i / 720)[0]) for i in range(721)]
    L = sum(math.dist(a, b) for a, b in zip(ps, ps[1:]))
    size = max(max(p[i] for p in ps) - min(p[i] for p in ps) for i in range(3))
    for name, got in (("length", geom.length(crv)), ("%s_length" % c[0], lf(crv)), ("list length", geom.length([crv]))):
        require(abs(got - L) <= 0.005 * L, "%s of %r is %r, should be %r" % (name, c, got, L))
    for name, box in (("bbox", geom.bbox(crv)), ("%s_bbox" % c[0], bf(crv)), ("list bbox", geom.bbox([crv]))):
        for k, f in ((0, min), (1, max)):
            for i in range(3):
                w = f(p[i] for p in ps)
                require(abs(box[k][i] - w) <= 0.01 * size + 1e-9, "%s of %r is %r: side %d,%d should be %r" % (name, c, box, k, i, w))
    cen = geom.center(crv)
    require(all(abs(cen[i] - c[1][i]) < 1e-12 for i in range(3)), "center of %r is %r" % (c, cen))
    full = c[0] == "ellipse" and c[4] == (0, 360)
    if c[0] == "ellipse":
        require(geom.isfullellipse(crv) == full, "isfullellipse(%r) is not %r" % (c, full))
    require(crv == keep, "%r is changed" % (c,))
    return Out(c[0], [h(c)], len(US))


def judge_inverse(c):
    from yapcad import geom

    crv = build(c)
    for u in (0.0, 0.123, 1 / 3, 0.5, 0.9999, 1.0):
        p = geom.sample(crv, u)
        for x, what in ((crv, "the curve"), ([crv], "the list")):
            v = geom.unsample(x, p)
            require(v is not False and 0 <= v <= 1 and math.dist(geom.sample(x, v)[:3], p[:3]) <= 1e-4, "unsample of %s %r at %s is %r" % (what, c, u, v))
    X, Y = frame(c[5])
    nrm = (X[1] * Y[2] - X[2] * Y[1], X[2] * Y[0] - X[0] * Y[2], X[0] * Y[1] - X[1] * Y[0])
    p = geom.sample(crv, 0.4)
    off = P([a + 0.05 * b for a, b in zip(p, nrm)])
    require(geom.unsample(crv, off) is False, "unsample of %r finds %r, off its plane" % (c, off))
    return Out("inverse " + c[0], [h(c)], 6)


def judge_refuse(case):
    from yapcad import geom
    k, args, kw = case[0], case[1], dict(case[2])
    if "normal" in kw:
        kw["normal"] = list(kw["normal"])
    try:
        {"ellipse": geom.ellipse, "parabola": geom.parabola, "hyperbola": geom.hyperbola}[k](P((1, 2, 3)), *args, **kw)
    except ValueError:
        return Out("refused")
    require(False, "%r is accepted" % (case,))


def judge_dsl(case):
    c, form = case
    from yapcad.dsl.runtime.interpreter import compile_and_run

    _, cen, par, rot, (s, e), _ = c
    args = ["point(%s)" % ", ".join(repr(float(x)) for x in cen)] + [repr(float(x)) for x in par] + [repr(float(x)) for x in (rot, s, e)][:form]
    c = (c[0], cen, par, rot if form else 0, (s if form > 1 else 0, e if form > 2 else 360), None)
    src = "module t;\ncommand R() -> list<point>:\n    let c: ellipse = ellipse(%s)\n    let a: point = sample_curve(c, 0.3)\n    let n: list<point> = sample_curve_n(c, 5)\n    let r: list<point> = concat([a], n)\n    emit r\n" % ", ".join(args)
    r = compile_and_run(src, "R", {})
    require(r.success, "%s fails: %s" % (src, r.error_message))
    us = [0.3, 0, 0.25, 0.5, 0.75, 1]
    require(len(r.geometry) == 6, "%s gives %d points" % (src, len(r.geometry)))
    for u, p in zip(us, r.geometry):
        p = getattr(p, "data", p)
        w = place(c, local(c, u)[0])
        require(all(abs(a - b) < 1e-9 for a, b in zip(p, w)), "%s at %s is %r, should be %r" % (src, u, p, w))
    src = "module t;\ncommand R() -> float:\n    let c: ellipse = ellipse(%s)\n    let r: float = curve_length(c)\n    emit r\n" % ", ".join(args)
    r = compile_and_run(src, "R", {})
    ps = [place(c, local(c, i / 720)[0]) for i in range(721)]
    L = sum(math.dist(a, b) for a, b in zip(ps, ps[1:]))
    require(r.success and abs(r.geometry - L) <= 0.005 * L, "%s is %r, should be %r" % (src, r.geometry, L))
    return Out("dsl", [h(case)], 7)


BAD = [("ellipse", (0, 1), ()), ("ellipse", (2, 0), ()), ("ellipse", (-2, 1), ()), ("ellipse", (2, -1), ()), ("ellipse", ("2", 1), ()), ("ellipse", (2, 1), (("normal", (0, 0, 0)),)), ("ellipse", (2, None), ()),
       ("parabola", (0,), ()), ("parabola", (-1,), ()), ("parabola", (None,), ()), ("parabola", (1,), (("normal", (0, 0, 0)),)), ("hyperbola", (0, 1), ()), ("hyperbola", (1, 0), ()), ("hyperbola", (1, -1), ()),
       ("hyperbola", (1, 1), (("branch", 0),)), ("hyperbola", (1, 1), (("branch", 2),)), ("hyperbola", (1, 1), (("normal", (0, 0, 0)),))]


def run(ctx):
    th = ctx.thorough
    cens = [(0, 0, 0), (1.5, -2, 3)]
    rots = (0, 30, 90, -135, 270, 400) if not th else tuple(range(-360, 721, 15))
    er = [(0, 360), (0, 90), (90, 360), (0, 180), (30, 200), (-45, 45), (300, 60), (90, 450), (180, 181), (10, 370)]
    pr = [(-10, 10), (0, 3), (3, 0), (-2, -0.5), (1, 8)]
    hr = [(-2, 2), (0, 1), (1, -1), (-3, -1)]
    cs = [("ellipse", c, p, r, s, n) for c in cens for p in ((3, 2), (5, 0.5), (2, 2), (3, 2.999)) for r in rots for s in er for n in NORMALS]
    cs += [("parabola", c, (f,), r, s, n) for c in cens for f in (0.5, 1, 4) for r in rots for s in pr for n in NORMALS]
    cs += [("hyperbola", c, p + (b,), r, s, n) for c in cens for p in ((3, 2), (1, 4), (2, 2)) for b in (1, -1) for r in rots for s in hr for n in NORMALS]
    inv = cs[::11] if th else cs[::37]
    dsl = [(("ellipse", c, p, r, s, None), f) for c in cens for p in ((3, 2), (2, 2)) for r in rots[:6] for s in er for f in range(4)]
    ctx.explore(judge, [("conic", cs), ("inverse", inv), ("refuse", BAD), ("dsl", dsl)], batch=20)
    ctx.notes["reference"] = "parametric equations placed by a frame built from the lean direction of the normal"
