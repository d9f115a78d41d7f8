"""P42: analytic surfaces are the surfaces their parameters describe."""
import itertools
import math

from mc.core import Out, h, require as _require

META = {
    "id": "P42",
    "title": "Analytic surfaces are the surfaces their parameters describe",
    "statement": "Over the whole parameter range, ends included, every evaluated point of a plane, sphere, cylinder, cone, torus or (rational) B-spline surface satisfies that surface's own equation at the documented parameters, and the normal there is the unit outward normal (for a B-spline, that of its two tangents). Tessellation samples exactly the grid of the range, its triangles cover each cell once and turn the way the normals point, and its boundary loop is the grid's rim. Each surface is recognised as its one kind, and impossible parameters are refused.",
    "over": ["inputs"],
    "forall": "every surface of the grid of origins, axes, sizes and ranges at every grid parameter; every clamped or open B-spline of degrees 1-3 over every knot pattern of up to 3 interior knots; every division count to 4x4 (6x6)",
    "why": "An end of a range, an axis near a reference direction or a repeated knot breaks one evaluation among many; the suite only makes planes.",
    "files": ["src/yapcad/analytic_surfaces.py"],
    "mech": [["evaluation", "analytic_surfaces.py:evaluate_surface"], ["B-splines", "analytic_surfaces.py:_bspline_basis"], ["tessellation", "analytic_surfaces.py:tessellate_surface"]],
    "technique": "explicit enumeration of surfaces, knot vectors and parameters against the real evaluators, judged by implicit equations and an independent de Boor triangle",
    "note": "B-spline normals are compared at 1e-4 (the code differentiates numerically) and not where the tangents degenerate",
}
PI = math.pi


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def dot(a, b):
    return sum(a[i] * b[i] for i in range(3))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(a[i] - b[i] for i in range(3))


def mul(a, k):
    return tuple(x * k for x in a[:3])


def add(*vs):
    return tuple(sum(v[i] for v in vs) for i in range(3))


def size(a):
    return math.sqrt(dot(a, a))


def unit(a):
    m = size(a)
    return tuple(x / m for x in a[:3])


# ---- quadrics and the torus: (kind, origin, axis, sizes, u range or None, v range or None)

def make(case):
    from yapcad import analytic_surfaces as A
    kind, o, ax, s, ur, vr = case
    kw = {}
    if ur is not None:
        kw["u_range"] = ur
    if vr is not None:
        kw["v_range"] = vr
    o = list(o) + ([1] if len(ax) == 4 else [])
    if kind == "plane":
        return A.plane_surface(o, list(ax), **kw)
    if kind == "sphere":
        return A.sphere_surface(o, s[0], **kw)
    if kind == "cylinder":
        return A.cylinder_surface(o, list(ax), s[0], **kw)
    if kind == "cone":
        return A.cone_surface(o, list(ax), s[0], **kw)
    return A.torus_surface(o, list(ax), s[0], s[1], **kw)


RANGES = {"plane": ((-1, 1), (-1, 1)), "sphere": ((0, 2 * PI), (-PI / 2, PI / 2)), "cylinder": ((0, 2 * PI), (0, 1)), "cone": ((0, 2 * PI), (0, 1)), "torus": ((0, 2 * PI), (0, 2 * PI))}


def span(r, n):
    return [r[0] + (r[1] - r[0]) * i / n for i in range(n + 1)]


def equation(case, u, v, p):
    """How far p is from where the parameters say, and the outward normal there."""
    kind, o, ax, s, _, _ = case
    d = sub(p, o)
    if kind == "sphere":
        n = (math.cos(v) * math.cos(u), math.cos(v) * math.sin(u), math.sin(v))
        return size(sub(d, mul(n, s[0]))), n
    a = unit(ax)
    t = dot(d, a)
    r = sub(d, mul(a, t))
    if kind == "plane":
        return abs(t) + abs(size(d) - math.hypot(u, v)), a
    if kind == "cylinder":
        return abs(t - v) + abs(size(r) - s[0]), unit(r)
    if kind == "cone":
        if v < 1e-12:
            return size(d), None
        return abs(t - v * math.cos(s[0])) + abs(size(r) - v * math.sin(s[0])), sub(mul(unit(r), math.cos(s[0])), mul(a, math.sin(s[0])))
    ring = mul(unit(r), s[0])
    tube = sub(d, ring)
    return abs(size(tube) - s[1]) + abs(t - s[1] * math.sin(v)) + abs(size(r) - s[0] - s[1] * math.cos(v)), unit(tube)


IS = ("plane", "sphere", "cylinder", "cone", "torus", "bspline", "tessellated")


def kinds(A, surf, kind):
    got = [k for k in IS if getattr(A, f"is_{k}_surface")(surf)]
    require(got == [kind], "{} is recognised as {}", kind, got)
    require(A.is_analytic_surface(surf), "{} is not an analytic surface", kind)
    for k in IS:
        if k == kind:
            continue
        for fn in (f"evaluate_{k}_surface", f"{k}_surface_normal"):
            try:
                getattr(A, fn)(surf, 0.25, 0.5)
            except ValueError:
                continue
            require(False, "{} takes a {} surface", fn, kind)


def judge_quadric(case):
    from yapcad import analytic_surfaces as A
    kind, o, ax, s, ur, vr = case
    surf = make(case)
    before = repr(surf)
    kinds(A, surf, kind)
    dur, dvr = RANGES[kind]
    ur, vr = ur or dur, vr or dvr
    m = surf[2]
    require(tuple(m["u_range"]) == tuple(ur) and tuple(m["v_range"]) == tuple(vr), "{}: ranges {} {} want {} {}", case, m["u_range"], m["v_range"], ur, vr)
    pts = {}
    tol = 1e-9 * (1 + max(map(abs, o)) + (max(s) if s else 0) + max(abs(x) for x in tuple(ur) + tuple(vr)))
    for u in span(ur, 8):
        for v in span(vr, 6):
            p = A.evaluate_surface(surf, u, v)
            require(len(p) == 4 and p[3] == 1, "{}: not a point: {}", case, p)
            off, n = equation(case, u, v, p)
            require(off <= tol, "{} at u={} v={}: {} is {} off the surface", case, u, v, p, off)
            g = A.surface_normal(surf, u, v)
            require(abs(size(g) - 1) < 1e-9 and len(g) == 4 and g[3] == 0, "{}: normal {} is not a unit direction", case, g)
            if n is not None:
                require(size(sub(g, n)) < 1e-7, "{} at u={} v={}: normal {} want {}", case, u, v, g[:3], n)
            pts[u, v] = p
    # the angle u turns as a right-handed angle about the axis, evenly
    if kind in ("cylinder", "cone", "torus"):
        a = unit(ax)
        v = vr[1]
        us = span(ur, 8)
        radial = [unit(sub(sub(pts[u, v], o), mul(a, dot(sub(pts[u, v], o), a)))) for u in us]
        for i in range(8):
            step = math.atan2(dot(cross(radial[i], radial[i + 1]), a), dot(radial[i], radial[i + 1]))
            require(abs(math.remainder(step - (us[i + 1] - us[i]), 2 * PI)) < 1e-7, "{}: u from {} to {} turns {}", case, us[i], us[i + 1], step)
    if kind == "plane":
        for (u0, v0), (u1, v1) in itertools.combinations([(x, y) for x in (ur[0], ur[1]) for y in (vr[0], vr[1])], 2):
            require(abs(size(sub(pts[u0, v0], pts[u1, v1])) - math.hypot(u0 - u1, v0 - v1)) < tol, "{}: plane parameters are not lengths", case)
        e = (sub(pts[ur[1], vr[0]], pts[ur[0], vr[0]]), sub(pts[ur[0], vr[1]], pts[ur[0], vr[0]]))
        require(dot(cross(*e), ax) > 0, "{}: u, v and the normal are not right-handed", case)
    require(repr(surf) == before, "{}: evaluation changed the surface", case)
    return Out("quadric", [h(repr(case))], 63)


# ---- B-splines: (degree u, knots u, degree v, knots v, weights kind, net kind)

def net(nu, nv, kind):
    if kind == 0:
        return [[(float(i), float(j), 0.25 * i * j - 0.5 * (i - 1) ** 2) for i in range(nu)] for j in range(nv)]
    if kind == 1:
        return [[(2.0 * i + 0.3 * j, 1.5 * j - 0.2 * i, ((i * 7 + j * 3) % 4) * 0.6) for i in range(nu)] for j in range(nv)]
    return [[(math.cos(0.7 * i) * (4 + j), math.sin(0.7 * i) * (4 + j), 0.5 * j + 0.1 * i * j) for i in range(nu)] for j in range(nv)]


def weights(nu, nv, kind):
    if kind == 0:
        return None
    if kind == 1:
        return [[1.0 + 0.5 * ((i + j) % 3) for i in range(nu)] for j in range(nv)]
    return [[2.0 if (i, j) == (1, 0) else 0.25 if j == nv - 1 else 1.0 for i in range(nu)] for j in range(nv)]


def deboor(knots, p, pts, t):
    """Point of the curve with homogeneous points `pts` at t (de Boor triangle)."""
    n = len(pts)
    k = p
    while k < n - 1 and t >= knots[k + 1]:
        k += 1
    d = [list(pts[j + k - p]) for j in range(p + 1)]
    for r in range(1, p + 1):
        for j in range(p, r - 1, -1):
            i = j + k - p
            den = knots[i + p - r + 1] - knots[i]
            a = 0.0 if den == 0 else (t - knots[i]) / den
            d[j] = [(1 - a) * x + a * y for x, y in zip(d[j - 1], d[j])]
    return d[p]


def derivative(knots, p, pts):
    q = [[p * (b - a) / (knots[i + p + 1] - knots[i + 1]) if knots[i + p + 1] > knots[i + 1] else 0.0 for a, b in zip(pts[i], pts[i + 1])] for i in range(len(pts) - 1)]
    return knots[1:-1], p - 1, q


def bez(ku, p, kv, q, rows, u, v):
    """Point and the two tangents of the surface with homogeneous rows [v][u]."""
    def at(fu, fv):
        col = []
        for row in rows:
            k, d, c = (ku, p, row) if not fu else derivative(ku, p, row)
            col.append(deboor(k, d, c, u))
        k, d, c = (kv, q, col) if not fv else derivative(kv, q, col)
        return deboor(k, d, c, v)
    s, su, sv = at(0, 0), at(1, 0), at(0, 1)
    w = s[3]
    pt = tuple(x / w for x in s[:3])
    return pt, tuple((su[i] - su[3] * pt[i]) / w for i in range(3)), tuple((sv[i] - sv[3] * pt[i]) / w for i in range(3))


def judge_bspline(case):
    from yapcad import analytic_surfaces as A
    p, ku, q, kv, wk, nk, cut = case
    nu, nv = len(ku) - p - 1, len(kv) - q - 1
    cps, w = net(nu, nv, nk), weights(nu, nv, wk)
    kw = {} if w is None else {"weights": w}
    ur, vr = (ku[p], ku[nu]), (kv[q], kv[nv])
    if cut:
        ur = (ur[0] + 0.25 * (ur[1] - ur[0]), ur[1])
        vr = (vr[0], vr[0] + 0.75 * (vr[1] - vr[0]))
        kw.update(u_range=ur, v_range=vr)
    surf = A.bspline_surface([[list(c) for c in row] for row in cps], list(ku), list(kv), p, q, **kw)
    before = repr(surf)
    kinds(A, surf, "bspline")
    m = surf[2]
    require(tuple(m["u_range"]) == tuple(ur) and tuple(m["v_range"]) == tuple(vr), "{}: ranges {} {} want {} {}", case, m["u_range"], m["v_range"], ur, vr)
    rows = [[tuple(x * (w[j][i] if w else 1.0) for x in cps[j][i]) + ((w[j][i] if w else 1.0),) for i in range(nu)] for j in range(nv)]
    us = sorted(set(span(ur, 5)) | {k for k in ku if ur[0] <= k <= ur[1]})
    vs = sorted(set(span(vr, 4)) | {k for k in kv if vr[0] <= k <= vr[1]})
    for u in us:
        for v in vs:
            pt, tu, tv = bez(ku, p, kv, q, rows, u, v)
            g = A.evaluate_surface(surf, u, v)
            require(size(sub(g, pt)) < 1e-8, "{} at u={} v={}: point {} want {}", case, u, v, g, pt)
            n = cross(tu, tv)
            gn = A.surface_normal(surf, u, v)
            require(abs(size(gn) - 1) < 1e-9, "{}: normal {} is not of unit length", case, gn)
            # where a knot's multiplicity breaks the tangent, either side's is right
            if size(n) > 1e-3 * (1 + size(tu) * size(tv)):
                sharp = any(knots.count(t) >= d and knots[d] < t < knots[-d - 1] for knots, d, t in ((ku, p, u), (kv, q, v)))
                if not sharp:
                    require(size(sub(gn, unit(n))) < 1e-4, "{} at u={} v={}: normal {} want {}", case, u, v, gn[:3], unit(n))
    if w is None and not cut:
        clamped = len(set(ku[:p + 1])) == 1 and len(set(kv[:q + 1])) == 1 and len(set(ku[-p - 1:])) == 1 and len(set(kv[-q - 1:])) == 1
        if clamped:
            for (u, i), (v, j) in itertools.product(((ur[0], 0), (ur[1], nu - 1)), ((vr[0], 0), (vr[1], nv - 1))):
                require(size(sub(A.evaluate_surface(surf, u, v), cps[j][i])) < 1e-9, "{}: corner ({}, {}) is not the control point", case, i, j)
    require(repr(surf) == before, "{}: evaluation changed the surface", case)
    return Out("bspline", [h(repr(case))], len(us) * len(vs))


# ---- tessellation

def surface(case):
    if case[0] == "bspline":
        from yapcad import analytic_surfaces as A
        _, p, ku, q, kv, wk, nk = case
        nu, nv = len(ku) - p - 1, len(kv) - q - 1
        return A.bspline_surface(net(nu, nv, nk), list(ku), list(kv), p, q, weights=weights(nu, nv, wk))
    return make(case)


def judge_tess(case):
    from yapcad import analytic_surfaces as A
    sc, nu, nv = case
    surf = surface(sc)
    kw = {}
    if nu is not None:
        kw = {"u_divisions": nu, "v_divisions": nv}
    before = repr(surf)
    mesh = A.tessellate_surface(surf, **kw)
    nu, nv = (16, 16) if nu is None else (nu, nv)
    require(isinstance(mesh, list) and mesh[0] == "surface" and len(mesh) == 6, "{}: not a surface", case)
    _, vs, ns, fs, rim, holes = mesh
    require(len(vs) == len(ns) == (nu + 1) * (nv + 1) and len(fs) == 2 * nu * nv and not holes, "{}: {} vertices, {} normals, {} faces", case, len(vs), len(ns), len(fs))
    ur, vr = surf[2]["u_range"], surf[2]["v_range"]
    grid = {}
    for j in range(nv + 1):
        for i in range(nu + 1):
            u, v = ur[0] + (ur[1] - ur[0]) * i / nu, vr[0] + (vr[1] - vr[0]) * j / nv
            k = j * (nu + 1) + i
            require(size(sub(vs[k], A.evaluate_surface(surf, u, v))) < 1e-9, "{}: vertex {} {} is not the point at u={} v={}", case, k, vs[k], u, v)
            require(size(sub(ns[k], A.surface_normal(surf, u, v))) < 1e-6, "{}: normal {} is not the one at u={} v={}", case, k, u, v)
            grid[k] = (i, j)
    use = {}
    cells = {}
    for f in fs:
        ij = [grid[x] for x in f]
        area = (ij[1][0] - ij[0][0]) * (ij[2][1] - ij[0][1]) - (ij[1][1] - ij[0][1]) * (ij[2][0] - ij[0][0])
        require(area == 1, "{}: face {} is not half a cell, turning as u to v", case, f)
        c = (min(x for x, _ in ij), min(y for _, y in ij))
        cells[c] = cells.get(c, 0) + 1
        for a, b in zip(f, f[1:] + f[:1]):
            use[a, b] = use.get((a, b), 0) + 1
    require(len(cells) == nu * nv and set(cells.values()) == {2} and set(use.values()) == {1}, "{}: the cells are not each covered once", case)
    border = {e for e in use if e[::-1] not in use}
    loop = set(zip(rim, rim[1:] + rim[:1]))
    require(len(rim) == len(set(rim)) == 2 * (nu + nv), "{}: the boundary has {} vertices", case, len(rim))
    require(loop == border, "{}: the boundary {} is not the rim of the faces", case, rim)
    # triangles turn the way the normals point, wherever a cell's turn is small
    if nu >= 4 and nv >= 4 and sc[0] != "bspline":
        for f in fs:
            a, b, c = (vs[x] for x in f)
            n = cross(sub(b, a), sub(c, a))
            if size(n) > 1e-9:
                mean = add(*(ns[x] for x in f))
                require(dot(n, mean) > 0, "{}: face {} turns against its normals", case, f)
    require(repr(surf) == before, "{}: tessellation changed the surface", case)
    return Out("tessellation", [h(repr(case))], len(fs))


def judge_soup(case):
    """A stored mesh is handed back as it is."""
    from yapcad import analytic_surfaces as A
    n, hom = case
    vs = [[float(i), float(i * i % 3), 0.5 * i] + ([1] if hom else []) for i in range(n)]
    ns = [list(unit((0.1 * i, 0.2, 1.0))) + ([0] if hom else []) for i in range(n)]
    fs = [[i, i + 1, i + 2] for i in range(n - 2)]
    surf = A.tessellated_surface(vs, ns, fs)
    kinds(A, surf, "tessellated")
    for nu in (1, 3):
        mesh = A.tessellate_surface(surf, u_divisions=nu, v_divisions=nu)
        require([tuple(v[:3]) for v in mesh[1]] == [tuple(v[:3]) for v in vs] and [list(f) for f in mesh[3]] == fs and [tuple(x[:3]) for x in mesh[2]] == [tuple(x[:3]) for x in ns], "{}: the stored mesh came back changed", case)
        require(all(v[3] == 1 for v in mesh[1]) and all(x[3] == 0 for x in mesh[2]), "{}: points or directions not homogeneous", case)
    g = A.surface_normal(surf, 0.5, 0.5)
    want = unit(add(*ns))
    require(size(sub(g, want)) < 1e-9, "{}: mean normal {} want {}", case, g, want)
    return Out("stored", [h(repr(case))], n)


def judge_refuse(case):
    from yapcad import analytic_surfaces as A
    fn, args, kw = case
    kw = dict(kw)
    try:
        r = getattr(A, fn)(*args, **kw)
    except ValueError:
        return Out("refused", [h(repr(case))], 1)
    require(False, "{}{} {} is accepted: {}", fn, args, kw, r)


NET22 = (((0, 0, 0), (1, 0, 0)), ((0, 1, 0), (1, 1, 1)))
REFUSE = [("plane_surface", ((0, 0, 0), (0, 0, 0)), ())] + [
    (f, ((0, 0, 0), (0, 0, 0)) + r, ()) for f, r in (("cylinder_surface", (1,)), ("cone_surface", (0.5,)), ("torus_surface", (2, 1)))
] + [("sphere_surface", ((0, 0, 0), r), ()) for r in (0, -1, -0.001)] + [("cylinder_surface", ((0, 0, 0), (0, 0, 1), r), ()) for r in (0, -2)] + [
    ("cone_surface", ((0, 0, 0), (0, 0, 1), a), ()) for a in (0, -0.3, PI / 2, 2.0)] + [
    ("torus_surface", ((0, 0, 0), (0, 0, 1), a, b), ()) for a, b in ((0, 1), (2, 0), (-2, 1), (2, -1), (1, 1), (1, 2))] + [
    ("bspline_surface", (NET22[:1], (0, 0, 1, 1), (0, 1), 1, 0), ()),
    ("bspline_surface", (tuple(r[:1] for r in NET22), (0, 1), (0, 0, 1, 1), 0, 1), ()),
    ("bspline_surface", ((NET22[0], NET22[1][:1]), (0, 0, 1, 1), (0, 0, 1, 1), 1, 1), ()),
    ("bspline_surface", (NET22, (0, 0, 1), (0, 0, 1, 1), 1, 1), ()),
    ("bspline_surface", (NET22, (0, 0, 1, 1), (0, 0, 1, 1, 1), 1, 1), ()),
    ("bspline_surface", (NET22, (0, 0, 0, 1, 1, 1), (0, 0, 1, 1), 1, 1), ()),
    ("bspline_surface", ((((0, 0), (1, 0)), ((0, 1), (1, 1))), (0, 0, 1, 1), (0, 0, 1, 1), 1, 1), ()),
    ("tessellate_surface", (("plane_surface", 1, 2),), ()), ("tessellate_surface", (None,), ()),
    ("evaluate_surface", (None, 0, 0), ()), ("surface_normal", (("x",), 0, 0), ()),
    ("tessellated_surface", (((0, 0),), ((0, 0, 1),), ()), ()), ("tessellated_surface", (((0, 0, 0),), ((0, 0),), ()), ()),
]


def knotvecs(p, most, levels, clamp):
    """Every knot vector of degree p with up to `most` interior knots over the levels."""
    out = []
    for m in range(most + 1):
        for inner in itertools.combinations_with_replacement(levels, m):
            if any(inner.count(x) > p for x in inner):
                continue
            if clamp:
                out.append((0.0,) * (p + 1) + inner + (1.0,) * (p + 1))
            else:
                out.append(tuple(-0.5 * (p - i) for i in range(p)) + (0.0,) + inner + (1.0,) + tuple(1.0 + 0.4 * (i + 1) for i in range(p)))
    return out


def run(ctx):
    t = ctx.thorough
    axes = [a for a in itertools.product((-1, 0, 1), repeat=3) if any(a)] + [(0.0, 0.435, 0.9), (0.0, 0.437, 0.9), (0.3, -0.3, -0.9), (2, 0, 0.001), (0, 0, 5), (1e-3, 0, 0), (1, 2, 3, 0)]
    origins = [(0, 0, 0), (1, -2, 3)] + ([(-100, 0.5, 20)] if t else [])
    uas = [None, (0.3, 2.0), (-1.0, 1.0)] + ([(-PI, PI), (2.0, 7.0)] if t else [])
    qs = []
    for o, a in itertools.product(origins, axes):
        for ur in [None, (0, 3), (-2.5, 1)]:
            for vr in [None, (1, 4)]:
                qs.append(("plane", o, a, (), ur, vr))
        for ur in uas:
            for s in (0.5, 3) + ((40,) if t else ()):
                for vr in [None, (-2, 5)]:
                    qs.append(("cylinder", o, a, (s,), ur, vr))
            for s in (0.2, PI / 4, 1.4):
                for vr in [None, (1, 3)] + ([(0.25, 9)] if t else []):
                    qs.append(("cone", o, a, (s,), ur, vr))
            for s in ((2, 0.5), (1, 0.99)) + (((10, 0.1),) if t else ()):
                for vr in [None, (0.5, 3)]:
                    qs.append(("torus", o, a, s, ur, vr))
    for o in origins:
        for ur in uas:
            for s in (0.5, 1, 7):
                for vr in [None, (0, 1), (-0.4, 1.2)]:
                    qs.append(("sphere", o, (0, 0, 1), (s,), ur, vr))
    levels = (0.25, 0.5) if not t else (0.2, 0.5, 0.7)
    kn = {p: knotvecs(p, 2 if not t else 3, levels, True) + knotvecs(p, 1, levels, False) for p in (1, 2, 3)}
    # a few ranges other than [0, 1]
    wide = {p: [tuple(2 + 3 * x for x in k) for k in kn[p][:3]] for p in kn}
    bs = []
    for p, q in itertools.product((1, 2, 3), repeat=2):
        for ku in kn[p] + wide[p]:
            for kv in (kn[q] + wide[q] if t else kn[q][:4] + kn[q][-2:] + wide[q][:1]):
                if len(ku) - p - 1 < 2 or len(kv) - q - 1 < 2:
                    continue
                for wk, nk in ((0, 0), (1, 1), (2, 2)):
                    if not t and (wk + len(ku) + len(kv)) % 2:
                        continue
                    bs.append((p, ku, q, kv, wk, nk, (wk + len(kv)) % 3 == 1))
    ts = [(("bspline", p, kn[p][1], q, kn[q][-1], 1, 0), i, j) for p in (1, 2, 3) for q in (1, 3) for i in (1, 2, 4) for j in (1, 3)]
    some = [c for c in qs if c[1] == origins[1] and c[2] in ((0, 0, 1), (1, 1, 0), (0, -1, 1), (-1, 0, 0))]
    most = 6 if t else 4
    for c in some[:: 1 if t else 3]:
        for i, j in itertools.product(range(1, most + 1), repeat=2):
            ts.append((c, i, j))
        ts.append((c, None, None))
    ctx.notes["surfaces"] = {"quadrics": len(qs), "bsplines": len(bs), "tessellations": len(ts)}
    ctx.explore(judge, [("quadric", qs), ("bspline", bs), ("tess", ts), ("soup", [(n, b) for n in range(3, 8) for b in (0, 1)]), ("refuse", REFUSE)], batch=24)
