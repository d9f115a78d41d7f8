"""P27: spline evaluation is exact for every control polygon, degree, knots and weights."""
import copy
import itertools
import math
from fractions import Fraction as F

from mc.core import Out, h, require

META = {
    "id": "P27",
    "title": "Splines go where their control points, knots and weights say",
    "statement": "Bezier curves, open and closed B-splines, NURBS (any weights, clamped or unclamped knots) and open and closed Catmull-Rom splines (uniform, centripetal, chordal) evaluate to the mathematically defined point at every parameter in [0, 1], clamp outside of it, and their samplers and tangents agree with it. `sample`, `length`, `bbox`, `center` and `unsample` of such a curve, alone or in a geometry list, are consistent with its points. The DSL's spline functions give the same curves and samples, and ill-formed definitions are refused.",
    "over": ["inputs"],
    "forall": "every sequence of 2-5 control points over an alphabet with repeats, every degree, knot multiplicity pattern, weight pattern, closure and alpha of the grids, at parameters on and between all knots and at both ends",
    "why": "Errors sit at knots, span ends, repeated points and knots, and closure seams; tests evaluate a few smooth examples.",
    "files": ["src/yapcad/spline.py", "src/yapcad/geom.py", "src/yapcad/dsl/runtime/builtins.py"],
    "mech": [["b-spline basis", "spline.py:bspline_point"], ["NURBS", "spline.py:_nurbs_point"], ["Catmull-Rom", "spline.py:_catmullrom_point"], ["dispatch", "geom.py:sample"], ["inverse", "geom.py:_unsample_curve"], ["DSL", "builtins.py:_register_curve_functions"]],
    "technique": "explicit enumeration of control polygons, knot and weight patterns and parameters on the real functions, judged by exact rational de Boor / de Casteljau evaluation",
    "note": "points to 1e-9; tangents to 1e-3 relative (B-spline tangents are numerical by design); length to 4% and boxes to 4% of the size (documented sampling)",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def P(p):
    from yapcad.geom import point
    return point(*map(float, p))


def fr(p):
    return tuple(F(c) for c in (tuple(p) + (0, 0))[:3])


def lerp(a, b, t):
    return tuple((1 - t) * x + t * y for x, y in zip(a, b))


# -- references ---------------------------------------------------------

def casteljau(pts, t):
    w = [fr(p) for p in pts]
    while len(w) > 1:
        w = [lerp(a, b, t) for a, b in zip(w, w[1:])]
    return w[0]


def deboor(pts, deg, knots, t, weights=None):
    """t in [0,1] over the curve's domain, everything rational"""
    knots = [F(k) for k in knots]
    n = len(pts)
    lo, hi = knots[deg], knots[n]
    u = lo + (hi - lo) * t
    k = max(i for i in range(deg, n) if knots[i] <= u and knots[i] < knots[i + 1])
    w = [F(x) for x in (weights or [1] * n)]
    d = [tuple(c * w[i] for c in fr(pts[i])) + (w[i],) for i in range(k - deg, k + 1)]
    for r in range(1, deg + 1):
        for j in range(deg, r - 1, -1):
            i = j + k - deg
            den = knots[i + deg - r + 1] - knots[i]
            a = (u - knots[i]) / den if den else F(0)
            d[j] = lerp(d[j - 1], d[j], a)
    x = d[deg]
    return tuple(c / x[3] for c in x[:3])


def closed_bspline(pts, deg, t):
    """the closed uniform curve starts in the span of the first deg + 1 points"""
    n = len(pts)
    ext = list(pts) + list(pts[:deg])
    return deboor(ext, deg, [F(i - deg) for i in range(n + 2 * deg + 1)], t)


def uniform(n, deg):
    return [F(0)] * (deg + 1) + [F(i, n - deg) for i in range(1, n - deg)] + [F(1)] * (deg + 1)


def catmull(pts, closed, alpha, t):
    n = len(pts)
    spans = n if closed else n - 1
    s = float(t) * spans
    i = min(int(s), spans - 1)
    x = s - i
    g = (lambda k: pts[k % n]) if closed else (lambda k: pts[min(max(k, 0), n - 1)])
    p = [tuple(map(float, fr(g(i + d)))) for d in (-1, 0, 1, 2)]
    dt = [math.dist(a, b) ** alpha for a, b in zip(p, p[1:])]
    if dt[1] == 0:
        return p[2]
    out = []
    for c in range(3):
        s1 = (p[2][c] - p[1][c]) / dt[1]
        sl = [(p[k + 1][c] - p[k][c]) / dt[k] if dt[k] else 0.0 for k in range(3)]
        # nonuniform: finite-difference tangents (Catmull-Rom), one-sided quotient zero for a doubled end
        m1 = dt[1] * (sl[0] - (p[2][c] - p[0][c]) / (dt[0] + dt[1]) + s1)
        m2 = dt[1] * (s1 - (p[3][c] - p[1][c]) / (dt[1] + dt[2]) + sl[2])
        a, b = p[1][c], p[2][c]
        out.append((2 * x**3 - 3 * x**2 + 1) * a + (x**3 - 2 * x**2 + x) * m1 + (-2 * x**3 + 3 * x**2) * b + (x**3 - x**2) * m2)
    return tuple(out)


# -- the curve under test -----------------------------------------------

def build(c):
    from yapcad import geom
    k, pts = c[0], [P(p) for p in c[1]]
    if k == "bezier":
        return geom.bezier(pts)
    if k == "bspline":
        return geom.bspline(pts, degree=c[2], closed=c[3])
    if k == "nurbs":
        return geom.nurbs(pts, degree=c[2], weights=list(c[3]) if c[3] else None, knots=[float(x) for x in c[4]] if c[4] else None)
    if k == "catmull":
        return geom.catmullrom(pts, closed=c[2], alpha=c[3])
    return [P(p) for p in c[1]]  # a line


def ref(c, t):
    k, pts = c[0], c[1]
    if k == "bezier":
        return casteljau(pts, t)
    if k == "bspline":
        return closed_bspline(pts, c[2], t) if c[3] else deboor(pts, c[2], uniform(len(pts), c[2]), t)
    if k == "nurbs":
        return deboor(pts, c[2], c[4] or uniform(len(pts), c[2]), t, c[3])
    if k == "catmull":
        return catmull(pts, c[2], c[3], t)
    return lerp(fr(pts[0]), fr(pts[1]), t)


def breaks(c):
    """parameters where the formula changes"""
    k, n = c[0], len(c[1])
    if k == "bspline":
        m = n if c[3] else n - c[2]
    elif k == "catmull":
        m = n if c[2] else n - 1
    elif k == "nurbs" and c[4]:
        ks = [F(x) for x in c[4]]
        lo, hi = ks[c[2]], ks[n]
        return sorted({(x - lo) / (hi - lo) for x in ks if lo <= x <= hi})
    elif k == "nurbs":
        m = n - c[2]
    else:
        m = 1
    return [F(i, m) for i in range(m + 1)]


def params(c):
    b = breaks(c)
    return sorted(set(b) | {(x + y) / 2 for x, y in zip(b, b[1:])} | {(7 * x + y) / 8 for x, y in zip(b, b[1:])} | {F(1, 3), F(1, 4), F(3, 8)})


def agree(got, want, what, tol=1e-9):
    require(isinstance(got, list) and len(got) == 4 and got[3] == 1, "%s is no point: %r" % (what, got))
    s = max(1.0, max(abs(float(x)) for x in want))
    require(all(abs(a - float(b)) <= tol * s for a, b in zip(got, want)), "%s is %r, should be %r" % (what, got, [float(x) for x in want]))


def dense(c, n=240):
    b = [float(x) for x in breaks(c)]
    ts = []
    m = max(8, n // (len(b) - 1))
    for x, y in zip(b, b[1:]):
        ts += [x + (y - x) * i / m for i in range(m)]
    ts.append(1.0)
    return [tuple(map(float, ref(c, t))) for t in ts]


def polylen(ps):
    return sum(math.dist(a, b) for a, b in zip(ps, ps[1:]))


def judge_curve(c):
    from yapcad import geom, spline

    crv = build(c)
    keep = copy.deepcopy(crv)
    ev = {"bezier": spline.evaluate_bezier, "bspline": spline.evaluate_bspline, "nurbs": spline.evaluate_nurbs, "catmull": spline.evaluate_catmullrom}[c[0]]
    n = 0
    for t in params(c):
        want = ref(c, t)
        for name, f in (("evaluate", ev), ("sample", geom.sample)):
            agree(f(crv, float(t)), want, "%s(%r, %s)" % (name, c, t))
            n += 1
        if c[0] == "bezier":
            agree(spline.bezier_point(crv[1], float(t)), want, "bezier_point %r %s" % (c, t))
        if c[0] == "bspline":
            agree(spline.bspline_point(crv[1], float(t), c[2], c[3]), want, "bspline_point %r %s" % (c, t))
    for t, e in ((-0.25, F(0)), (1.5, F(1))):
        agree(ev(crv, t), ref(c, e), "evaluate %r at %s" % (c, t))
    # samplers: evenly spaced parameters, both ends
    if c[0] == "catmull":
        for per in (1, 3, 4):
            ps = spline.sample_catmullrom(crv, segments_per_span=per)
            m = (len(breaks(c)) - 1) * per
            require(len(ps) == m + 1, "sample_catmullrom(%r, %d) gives %d points" % (c, per, len(ps)))
            for i, p in enumerate(ps):
                agree(p, ref(c, F(i, m)), "sample_catmullrom(%r, %d)[%d]" % (c, per, i))
    else:
        for m in (1, 2, 5, 12):
            if c[0] == "nurbs":
                ps = spline.sample_nurbs(crv, samples=m + 1)
            else:
                ps = (spline.sample_bezier if c[0] == "bezier" else spline.sample_bspline)(crv, segments=m)
                raw = spline.bezier_curve(crv[1], m) if c[0] == "bezier" else spline.bspline_curve(crv[1], c[2], c[3], m)
                require(raw == ps, "the two samplers of %r differ" % (c,))
            require(len(ps) == m + 1, "%d samples of %r for %d segments" % (len(ps), c, m))
            for i, p in enumerate(ps):
                agree(p, ref(c, F(i, m)), "sample %d of %d of %r" % (i, m, c))
    # tangents
    if c[0] in ("bezier", "bspline"):
        e = F(1, 10**7)
        b = breaks(c)
        for t in params(c):
            if c[0] == "bspline" and c[2] == 1 and t in b:
                continue  # corners have no tangent
            lo, hi = max(F(0), t - e), min(F(1), t + e)
            want = [float((y - x) / (hi - lo)) for x, y in zip(ref(c, lo), ref(c, hi))]
            got = spline.bezier_tangent(crv[1], float(t)) if c[0] == "bezier" else spline.bspline_tangent(crv[1], float(t), c[2], c[3])
            s = max(1.0, max(map(abs, want)))
            require(len(got) == 4 and got[3] == 0 and all(abs(g - w) < 1e-3 * s for g, w in zip(got, want)), "tangent of %r at %s is %r, should be %r" % (c, t, got, want))
    require(crv == keep, "%r is changed" % (c,))
    return Out(c[0], [h(c)], n)


def judge_measure(c):
    from yapcad import geom

    crv = build(c)
    ps = dense(c)
    size = max(max(p[i] for p in ps) - min(p[i] for p in ps) for i in range(3))
    L = polylen(ps)
    got = geom.length(crv)
    require(abs(got - L) <= 0.04 * L + 1e-9, "length of %r is %r, should be %r" % (c, got, L))
    box = geom.bbox(crv)
    for i in range(3):
        for k, f in ((0, min), (1, max)):
            w = f(p[i] for p in ps)
            require(abs(box[k][i] - w) <= 0.04 * size + 1e-9, "bbox of %r is %r: side %d,%d should be %r" % (c, box, k, i, w))
    cen = geom.center(crv)
    require(all(abs(cen[i] - (box[0][i] + box[1][i]) / 2) < 1e-9 for i in range(3)), "center of %r is %r" % (c, cen))
    gl = geom.bbox([crv])
    require(all(abs(gl[k][i] - box[k][i]) <= 0.04 * size + 1e-9 for k in (0, 1) for i in range(3)), "bbox of [%r] is %r, of the curve %r" % (c, gl, box))
    # unsample: points of the curve, off the scan's steps too
    if L > 1e-6:
        for t in (0.0, 0.25, 1 / 3, 0.503, 0.7777, 1.0):
            p = geom.sample(crv, t)
            u = geom.unsample(crv, p)
            require(u is not False and 0.0 <= u <= 1.0 and math.dist(geom.sample(crv, u)[:3], p[:3]) <= 1e-4, "unsample(%r, sample at %r) is %r" % (c, t, u))
        far = [p + q for p, q in zip(geom.sample(crv, 0.5)[:3], (0, 0, 0.01 + size))]
        require(geom.unsample(crv, P(far)) is False, "unsample of %r finds %r, which is off the curve" % (c, far))
    return Out("measure " + c[0], [h(c)], 12)


def judge_list(case):
    """a list of curves is sampled by length"""
    from yapcad import geom

    els = [build(c) for c in case]
    require(geom.isgeomlist(els), "a list of %r is no geometry list" % ([c[0] for c in case],))
    ls = [geom.length(e) for e in els]
    tot = sum(ls)
    require(abs(geom.length(els) - tot) <= 1e-9 * tot, "length of %r is %r, its elements' %r" % (case, geom.length(els), ls))
    n = 0
    for k in range(1, 16):
        s = k / 16 * tot
        i = 0
        while i < len(ls) - 1 and s > ls[i]:
            s -= ls[i]
            i += 1
        if min(abs(s), abs(ls[i] - s)) < 1e-6 * tot:
            continue
        agree(geom.sample(els, k / 16), geom.sample(els[i], s / ls[i])[:3], "sample of %r at %d/16" % (case, k), 1e-7)
        n += 1
    box = geom.bbox(els)
    bs = [geom.bbox(e) for e in els]
    size = max(box[1][i] - box[0][i] for i in range(3))
    for k, f in ((0, min), (1, max)):
        for i in range(3):
            w = f(b[k][i] for b in bs)
            require(abs(box[k][i] - w) <= 0.04 * size + 1e-9, "bbox of %r is %r" % (case, box))
    p = geom.sample(els, 0.9)
    u = geom.unsample(els, p)
    require(u is not False and math.dist(geom.sample(els, u)[:3], p[:3]) < 1e-3, "unsample of a point of %r is %r" % (case, u))
    return Out("list", [h(case)], n)


BAD = [("bezier", 1), ("bezier", 0), ("catmull", 1), ("catmull", 0), ("bspline", 3, 3), ("bspline", 2, 2), ("bspline", 3, 0), ("nurbs", 3, 3, None, None), ("nurbs", 2, 0, None, None), ("nurbs", 4, 3, (1, 1, 1), None),
       ("nurbs", 4, 3, (1, 1, 1, 1, 1), None), ("nurbs", 4, 3, None, (0, 0, 0, 0, 1, 1, 1)), ("nurbs", 4, 3, None, (0, 0, 0, 0, 0, 1, 1, 1, 1)), ("nurbs", 0, 3, None, None)]


def judge_refuse(case):
    k, n = case[0], case[1]
    pts = tuple((i, i % 2, 0) for i in range(n))
    c = (k, pts) + tuple(case[2:])
    if k == "catmull":
        c = (k, pts, False, 0.5)
    if k == "bspline":
        c = c + (False,)
    try:
        build(c)
    except ValueError:
        return Out("refused")
    require(False, "%r is accepted" % (c,))


def num(x):
    return repr(float(x))


def judge_dsl(case):
    c, what, arg = case
    from yapcad.dsl.runtime.interpreter import compile_and_run

    pts = "[" + ", ".join("point(%s)" % ", ".join(num(x) for x in p) for p in c[1]) + "]"
    if c[0] == "bezier":
        e = "bezier(%s)" % pts
    elif c[0] == "catmull":
        e = "catmullrom(%s%s)" % (pts, "" if (c[2], c[3]) == (False, 0.5) else ", %s, %s" % (str(c[2]).lower(), num(c[3])))
    else:
        w = c[3] or (1,) * len(c[1])
        e = "nurbs(%s%s)" % (pts, "" if c[3] is None and c[2] == 3 else ", [%s], %d" % (", ".join(map(num, w)), c[2]))
    if what == "at":
        call, ty = "sample_curve(c, %s)" % num(arg), "point"
    elif what == "n":
        call, ty = "sample_curve_n(c, %d)" % arg, "list<point>"
    else:
        call, ty = "curve_length(c)", "float"
    ct = {"bezier": "bezier", "catmull": "catmullrom", "nurbs": "nurbs"}[c[0]]
    src = "module t;\ncommand R() -> %s:\n    let c: %s = %s\n    let r: %s = %s\n    emit r\n" % (ty, ct, e, ty, call)
    r = compile_and_run(src, "R", {})
    valid = {"bezier": lambda: len(c[1]) >= 2, "catmull": lambda: len(c[1]) >= 2, "nurbs": lambda: 1 <= c[2] < len(c[1]) and (c[3] is None or len(c[3]) == len(c[1]))}[c[0]]()
    if what == "n" and arg < 2:
        valid = False
    require(r.success == valid, "%s succeeds: %r (%r)" % (src, r.success, getattr(r, "error_message", None)))
    if valid:
        v = r.geometry if r.geometry is not None else r.emit_result.data
        if what == "at":
            agree(full(v), ref(c, F(arg)), src)
        elif what == "n":
            require(len(v) == arg, "%s gives %d points" % (src, len(v)))
            for i, p in enumerate(v):
                agree(full(p), ref(c, F(i, arg - 1)), src)
        else:
            L = polylen(dense(c))
            require(abs(v - L) <= 0.04 * L + 1e-9, "%s is %r, should be %r" % (src, v, L))
    return Out("dsl " + c[0] + (" ok" if valid else " refused"), [h(case)])


def full(v):
    v = list(getattr(v, "data", v))
    return v[:3] + [1] if len(v) > 2 else v + [0.0, 1]


A = [(0, 0, 0), (4, 0, 0), (1, 3, 0), (-2, 1, 2), (0, 0, 0.5)]
KN = {1: [(0, 0, 1, 1), (0, 0, 1, 2, 2), (0, 0, 1, 1.5, 3, 3)],
      2: [(0, 0, 0, 1, 1, 1), (0, 0, 0, 1, 3, 3, 3), (0, 0, 0, 1, 1, 2, 2, 2), (0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 5, 6), (-1, 0, 0, 2, 5, 5, 6)],
      3: [(0, 0, 0, 0, 2, 2, 2, 2), (0, 0, 0, 0, 0.25, 1, 1, 1, 1), (0, 1, 2, 3, 4, 5, 6, 7), (0, 0, 0, 0, 1, 1, 3, 3, 3, 3), (0, 0, 0, 0, 1, 1, 1, 3, 3, 3, 3)]}
WT = [None, (1, 2, 1, 1, 1, 1, 1), (0.5, 1, 3, 0.25, 1, 2, 1), (1, 0, 1, 1, 4, 1, 1)]


def polys(ns, alpha=A):
    for n in ns:
        yield from itertools.product(alpha, repeat=n)


def run(ctx):
    th = ctx.thorough
    cs = [("bezier", p) for p in polys((2, 3, 4) if not th else (2, 3, 4, 5))] + [("bezier", tuple(A[i] for i in ids)) for ids in itertools.permutations(range(5))]
    for n in (2, 3, 4, 5, 6) if th else (2, 3, 4, 5):
        alpha = A[:4] if n < 5 or th and n < 6 else A[1:4] if n < 6 else A[2:4]
        for p in itertools.product(alpha, repeat=n):
            for d in range(1, min(n, 5)):
                for closed in (False, True):
                    cs.append(("bspline", p, d, closed))
    for n in (2, 3, 4, 5):
        alpha = A[:4] if n < 5 or th else A[2:4]
        for p in itertools.product(alpha, repeat=n):
            for closed in (False, True):
                for a in (0.0, 0.5, 1.0):
                    cs.append(("catmull", p, closed, a))
    nurbs = []
    for d in (1, 2, 3):
        for n in range(d + 1, d + 4):
            for kn in [None] + [k for k in KN[d] if len(k) == n + d + 1]:
                for w in WT:
                    if w and 0 in w and (d < 2 or n < 3):
                        continue  # nothing but a zero weight is left at some knot
                    w = w and w[:n]
                    for p in itertools.product(A[:4] if n < 4 or th and n < 5 else A[1:4] if n < 5 else A[2:4], repeat=n):
                        nurbs.append(("nurbs", p, d, w, kn))
    distinct = [c for c in cs + nurbs if len(set(c[1])) > 1]
    step = 1 if th else 17
    meas = [c for i, c in enumerate(distinct) if (c[0] != "nurbs" or not c[3] or 0 not in c[3]) and i % step == 0]
    some = [("bezier", (A[0], A[2], A[1])), ("bspline", (A[0], A[2], A[3], A[1]), 3, False), ("bspline", (A[0], A[2], A[1]), 2, True), ("nurbs", (A[1], A[2], A[3]), 2, (1, 3, 1), None),
            ("catmull", (A[0], A[1], A[2]), True, 0.5), ("catmull", (A[3], A[1], A[2]), False, 0.5), ("line", (A[1], A[3]))]
    lists = [x for k in (1, 2, 3) for x in itertools.product(some, repeat=k) if th or k < 3]
    dsl = []
    base = [("bezier", p) for p in polys((1, 2, 3), A[:4])] + [("bezier", tuple(A)), ("bezier", ())]
    base += [("catmull", p, cl, a) for p in ((), (A[1],), (A[0], A[1]), (A[0], A[1], A[2]), (A[3], A[0], A[2], A[1])) for cl in (False, True) for a in (0.0, 0.5, 1.0)]
    base += [("nurbs", tuple(A[:n]), d, w and w[:m], None) for n in (1, 2, 3, 4, 5) for d in (0, 1, 2, 3, 4) for w in WT[:3] for m in ((n,) if w is None else (n - 1, n, n + 1))]
    for c in base:
        for wh, arg in [("at", 0.0), ("at", 0.375), ("at", 1.0), ("n", 1), ("n", 2), ("n", 5), ("length", None)]:
            if wh == "length" and len(set(c[1])) < 2 and len(c[1]) > 1 or not c[1]:
                continue
            dsl.append((c, wh, arg))
    ctx.explore(judge, [("curve", cs + nurbs), ("measure", meas), ("list", lists), ("refuse", BAD), ("dsl", dsl)], batch=20)
    ctx.notes["reference"] = "de Casteljau and de Boor in rational arithmetic; Catmull-Rom as Hermite cubic with finite-difference tangents"
