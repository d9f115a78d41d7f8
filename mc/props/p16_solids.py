"""P16: solid builders return closed solids of the shape they name."""
import itertools
import math

from mc import mesh
from mc.core import Out, require
from mc.lattice import area2, polygons

META = {
    "id": "P16",
    "title": "Solid builders return closed, outward solids of the named shape",
    "statement": "`prism`, `sphere`, `oblate_spheroid`, `dodecahedron`, `conic`, `tube`, `conic_tube`, `spherical_shell`, `makeRevolutionSolid` (of a contour that stays off the axis between its ends), `makeLoftSolid` and `loft` (of loops in order) return a solid whose faces close it, point outwards, and lie on the described shape with the volume and bounds that follow, for any size, proportion, resolution and position above the tolerance. `issolidclosed`, `volumeof`, `solidbbox` and `surfacearea` measure it as the mesh is, and a solid that lacks a face is not closed. `stack_solids` and the linear and radial patterns place each copy where their parameters say.",
    "over": ["inputs"],
    "forall": "the product of size, proportion, resolution and position grids for each builder, every contour over a grid of radii, every loft of lattice loops, every removed face of small solids, and every stack and pattern over parameter grids",
    "why": "A crack, a flipped face or a lost cap shows up only for particular proportions, resolutions and positions; the suite builds a few default solids.",
    "files": ["src/yapcad/geom3d_util.py", "src/yapcad/geom3d.py"],
    "mech": [["primitives", "geom3d_util.py:prism"], ["revolution", "geom3d_util.py:makeRevolutionSurface"], ["shells", "geom3d_util.py:spherical_shell"], ["loft", "geom3d_util.py:makeLoftSolid"], ["measures", "geom3d.py:volumeof"], ["placement", "geom3d_util.py:stack_solids"]],
    "technique": "explicit enumeration of parameter grids and contours against the real builders, each mesh certified by its edge chain, orientation, membership of its vertices in the ideal shape and the exact volume of the inscribed polyhedron",
    "note": "sizes from 0.1 to 500 units; shading normals of edges between smooth and flat parts are not judged",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def pt(c):
    from yapcad.geom import point
    return point(*c)


def verts(sol):
    return [tuple(v[:3]) for s in sol[1] for v in s[1]]


def verify(sol, vol, box=None, normals=True, rel=1e-6, lib=True):
    """closed, outward, volume and bounds; returns the triangles"""
    from yapcad import geom3d

    require(geom3d.issolid(sol, fast=False), "no valid solid")
    keep = repr(sol)
    T = mesh.tris(sol)
    lo = [min(p[i] for t in T for p in t) for i in range(3)]
    hi = [max(p[i] for t in T for p in t) for i in range(3)]
    size = max(b - a for a, b in zip(lo, hi))
    c = mesh.check(T, 1e-6)
    require(not c["deg"], "%d faces have two corners in one place" % c["deg"])
    require(not c["open"] and not c["dup"], "not closed: %d edges of one face, %d of too many" % (c["open"], c["dup"]))
    T0 = [tuple(tuple(p[i] - lo[i] for i in range(3)) for p in t) for t in T]
    got = mesh.vol(T0)
    require(got > 0, "the faces point inwards (signed volume %r)" % got)
    tol = rel * vol + 2e-6 * size * size
    require(abs(got - vol) <= tol, "volume %r, expected %r" % (got, vol))
    if normals:
        bad = mesh.normals(sol)
        require(bad == 0, "%d corners have normals that point into the solid" % bad)
    if box:
        for i in range(3):
            require(abs(lo[i] - box[0][i]) < 1e-6 + 1e-9 * abs(box[0][i]) and abs(hi[i] - box[1][i]) < 1e-6 + 1e-9 * abs(box[1][i]),
                    "bounds %r %r, expected %r" % (lo, hi, box))
    if lib:
        require(geom3d.issolidclosed(sol) is True, "issolidclosed is not true")
        far = max(map(abs, lo + hi))
        v = geom3d.volumeof(sol)
        require(abs(v - vol) <= tol + 1e-13 * far * size * size * len(T), "volumeof gives %r, expected %r" % (v, vol))
        bb = geom3d.solidbbox(sol)
        require(all(abs(bb[0][i] - lo[i]) < 1e-9 * (1 + far) and abs(bb[1][i] - hi[i]) < 1e-9 * (1 + far) for i in range(3)), "solidbbox gives %r for %r %r" % (bb, lo, hi))
        area = sum(geom3d.surfacearea(s) for s in sol[1])
        require(abs(area - c["area"]) <= 1e-6 * (1 + c["area"]), "surfacearea gives %r, expected %r" % (area, c["area"]))
        require(repr(sol) == keep, "measuring changes the solid")
    return T


def ngon(n):
    """area of the inscribed n-gon of the unit circle"""
    return n / 2 * math.sin(2 * math.pi / n)


def frustum(r0, r1, h):
    return h / 3 * (r0 * r0 + r0 * r1 + r1 * r1)


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def judge_prism(case):
    l, w, h, c = case
    from yapcad.geom3d_util import prism
    s = prism(l, w, h, pt(c))
    verify(s, l * w * h, ([c[0] - l / 2, c[1] - w / 2, c[2] - h / 2], [c[0] + l / 2, c[1] + w / 2, c[2] + h / 2]))
    return Out("prism")


def convex(T, tol):
    P = {tuple(p) for t in T for p in t}
    for t in T:
        n = mesh.nrm(t)
        m = math.sqrt(mesh.dot(n, n))
        for p in P:
            require(mesh.dot(mesh.sub(p, t[0]), n) <= tol * m, "a vertex lies in front of a face of a convex solid")


def judge_ball(case):
    name, d, obl, depth, c = case
    from yapcad import geom3d_util
    if name == "sphere":
        s = geom3d_util.sphere(d, pt(c), depth)
        obl = 0.0
    else:
        s = geom3d_util.oblate_spheroid(d, obl, pt(c), depth)
    a, b = d / 2, d / 2 * (1 - obl)
    T = mesh.tris(s)
    require(len(T) == 20 * 4 ** depth, "%d faces at depth %d" % (len(T), depth))
    for v in verts(s):
        q = ((v[0] - c[0]) / a, (v[1] - c[1]) / a, (v[2] - c[2]) / b)
        require(abs(mesh.dot(q, q) - 1) < 1e-6, "vertex %r is off the %s" % (v, name))
    ideal = 4 / 3 * math.pi * a * a * b
    lo, hi = [(.60, .61), (.87, .88), (.965, .967), (.991, .992)][depth]
    vol = mesh.vol([tuple(tuple(x - y for x, y in zip(p, c)) for p in t) for t in T])
    require(lo * ideal < vol < hi * ideal, "volume %r of %r" % (vol, ideal))
    verify(s, vol, normals=obl < .2 or depth > 1)
    if depth < 2:
        convex(T, 1e-6 * d)
    mid = verts(s)
    require(abs(max(v[2] for v in mid) - c[2] - b) < 1e-6 * (1 + abs(c[2])), "no pole")
    return Out("%s depth %d" % (name, depth))


def judge_dode(case):
    d, c = case
    from yapcad.geom3d_util import dodecahedron
    s = dodecahedron(d, pt(c))
    edge = d / (math.sqrt(3) * (1 + math.sqrt(5)) / 2)
    T = verify(s, (15 + 7 * math.sqrt(5)) / 4 * edge ** 3)
    P = set(tuple(round(x, 6) for x in v) for v in verts(s))
    require(len(P) == 20, "%d corners" % len(P))
    m = [sum(v[i] for v in P) / 20 for i in range(3)]
    require(abs(m[0] - c[0]) < 1e-5 and abs(m[1] - c[1]) < 1e-5, "center %r" % (m,))
    for v in P:
        require(abs(dist(v, m) - d / 2) < 1e-5, "corner %r lies %r from the middle" % (v, dist(v, m)))
    require(len(s[1]) == 12, "%d faces" % len(s[1]))
    require(abs(min(v[2] for v in P) - c[2]) < 1e-5, "does not stand on its base")
    convex(T, 1e-4 * d)
    return Out("dodecahedron")


def rings(sol, c, levels):
    """vertices sorted by level and distance from the axis -> radii per level"""
    out = {}
    for v in verts(sol):
        k = min(range(len(levels)), key=lambda i: abs(levels[i] - v[2]))
        require(abs(levels[k] - v[2]) < 1e-6 * (1 + abs(v[2])), "vertex %r between the levels" % (v,))
        out.setdefault(k, set()).add(round(math.hypot(v[0] - c[0], v[1] - c[1]), 5))
    return out


def judge_conic(case):
    r0, r1, h, angr, c = case
    from yapcad.geom3d_util import conic, adaptive_angr_from_radius
    s = conic(r0, r1, h, pt(c), angr=angr)
    n = round(360 / (angr if angr else adaptive_angr_from_radius(max(r0, r1))))
    if angr is None:
        require(16 <= n <= 360, "%d segments" % n)
    T = verify(s, ngon(n) * frustum(r0, r1, h))
    got = rings(s, c, (c[2], c[2] + h))
    require(max(got[0]) == round(r0, 5) and max(got[1]) == round(r1, 5), "radii %r" % (got,))
    require(len(T) == (4 * n if r1 else 2 * n), "%d faces for %d segments" % (len(T), n))
    return Out("conic %s" % ("cone" if not r1 else "frustum"))


def judge_tube(case):
    d0, d1, w, h, minang, c, key = case
    from yapcad import geom3d_util
    kw = {"minang": minang}
    args = [pt(c)] if key == "center" else []
    if key == "base_point":
        kw["base_point"] = pt(c)
    if d1 is None:
        s = geom3d_util.tube(d0, w, h, *args, **kw)
        d1 = d0
    else:
        s = geom3d_util.conic_tube(d0, d1, w, h, *args, **kw)
    got = rings(s, c, (c[2], c[2] + h))
    for k, d in ((0, d0), (1, d1)):
        require(got[k] == {round(d / 2, 5), round(d / 2 - w, 5)}, "radii %r" % (got,))
    T = mesh.tris(s)
    n = len(T) // 8
    require(len(T) == 8 * n and n >= 3, "%d faces" % len(T))
    angles = sorted({round(math.atan2(v[1] - c[1], v[0] - c[0]), 6) % 6.283185 for v in verts(s)})
    angles = [a for a, b in zip(angles, angles[1:] + [angles[0] + 2 * math.pi]) if b - a > 1e-4]
    gaps = [b - a for a, b in zip(angles, angles[1:] + [angles[0] + 2 * math.pi])]
    require(len(gaps) == n, "%d directions for %d segments" % (len(gaps), n))
    if minang:
        require(max(gaps) < math.radians(minang) * 1.01, "segments of %r degrees at minang %r" % (math.degrees(max(gaps)), minang))
    verify(s, sum(map(math.sin, gaps)) / 2 * (frustum(d0 / 2, d1 / 2, h) - frustum(d0 / 2 - w, d1 / 2 - w, h)), rel=1e-5)
    dims = [d0] if case[1] is None else [d0, d1]
    s = getattr(geom3d_util, "tube" if case[1] is None else "conic_tube")(*dims, w, h, *args, include_caps=False, **kw)
    require(len(s[1]) == 2 and len(mesh.tris(s)) == 4 * n, "without caps: %d faces" % len(mesh.tris(s)))
    return Out("tube" if case[1] is None else "conic tube")


def judge_shell(case):
    d, w, angle, minang, steps, c = case
    from yapcad.geom3d_util import spherical_shell
    s = spherical_shell(d, w, angle, pt(c), minang=minang, steps=steps)
    theta = math.acos(max(-1.0, 1 - angle / (2 * math.pi)))
    n = max(12, int(round(360 / minang)))
    m = max(steps, max(4, math.ceil(theta / math.radians(minang))))
    R = (d / 2, d / 2 - w)
    for v in verts(s):
        q = [x - y for x, y in zip(v, c)]
        r = math.sqrt(mesh.dot(q, q))
        require(min(abs(r - x) for x in R) < 1e-5, "vertex %r lies %r from the center" % (v, r))
        require(q[2] >= r * math.cos(theta) - 1e-5, "vertex %r lies outside of the cap" % (v,))
    vol = 0.0
    for r, sign in zip(R, (1, -1)):
        z = [r * math.cos(theta) + i * (r - r * math.cos(theta)) / m for i in range(m + 1)]
        rad = [math.sqrt(max(0.0, r * r - x * x)) for x in z]
        rad[-1] = 0.0
        if theta > math.pi - 1e-9:
            rad[0] = 0.0
        vol += sign * sum(frustum(a, b, y - x) for a, b, x, y in zip(rad, rad[1:], z, z[1:]))
    # between the rims of the two balls
    vol += frustum(R[1] * math.sin(theta), R[0] * math.sin(theta), (R[0] - R[1]) * math.cos(theta))
    verify(s, ngon(n) * vol, rel=1e-5)
    return Out("shell %s" % ("whole" if theta > 3.14 else "cap"))


def judge_rev(case):
    radii, z0, dz, n = case
    from yapcad.geom3d_util import makeRevolutionSolid
    k = len(radii) - 1

    def contour(z):
        u = min(max((z - z0) / dz * k, 0.0), float(k))
        i = min(int(u), k - 1)
        r = radii[i] + (u - i) * (radii[i + 1] - radii[i])
        return 0.0 if r < 1e-9 else r

    s = makeRevolutionSolid(contour, z0, z0 + dz, k, arcSamples=n)
    vol = ngon(n) * sum(frustum(a, b, dz / k) for a, b in zip(radii, radii[1:]))
    got = rings(s, (0, 0), [z0 + dz * i / k for i in range(k + 1)])
    for i, r in enumerate(radii):
        want = {round(r, 5)} | ({0.0} if i in (0, k) else set())
        require(got[i] == want, "level %d has the radii %r" % (i, got[i]))
    verify(s, vol, normals=False)
    return Out("revolution of %d steps" % k)


def judge_loft(case):
    poly, sections, back, closing, start = case
    from yapcad.geom import point
    from yapcad.geom3d_util import loft, makeLoftSolid
    p = poly[start:] + poly[:start]
    p = p[::-1] if back else p
    loops = []
    for z, k, dx in sections:
        loop = [point(x * k + dx, y * k, z) for x, y in p]
        loops.append(loop + (loop[:1] if closing else []))
    keep = repr(loops)
    if len(loops) == 2 and start % 2 == 0:
        s = makeLoftSolid(*loops)
    else:
        s = loft(loops)
    require(repr(loops) == keep, "arguments changed")
    vol = abs(sum((b[0] - a[0]) / 3 * (a[1] ** 2 + a[1] * b[1] + b[1] ** 2) for a, b in zip(sections, sections[1:]))) * area2(poly) / 2
    verify(s, vol, normals=False)
    want = {tuple(round(c, 6) for c in q[:3]) for l in loops for q in l}
    got = {tuple(round(c, 6) for c in v) for v in verts(s)}
    require(got == want, "vertices differ from the corners of the loops")
    return Out("loft of %d loops" % len(loops))


SMALL = {
    "prism": lambda u: u.prism(1, 2, 3), "sphere": lambda u: u.sphere(2, depth=1), "cone": lambda u: u.conic(2, 0, 1, angr=45),
    "frustum": lambda u: u.conic(2, 1, 1, angr=45), "tube": lambda u: u.tube(4, 1, 2, minang=45), "dode": lambda u: u.dodecahedron(2),
    "rev": lambda u: u.makeRevolutionSolid(lambda z: 1 + z, 0, 2, 3, arcSamples=5),
}


def judge_measure(case):
    """one face removed or doubled"""
    import copy
    name, si, fi = case
    from yapcad import geom3d, geom3d_util
    s = SMALL[name](geom3d_util)
    if si >= len(s[1]) or fi >= len(s[1][si][3]):
        return None
    require(geom3d.issolidclosed(s), "not closed as built")
    t = copy.deepcopy(s)
    del t[1][si][3][fi]
    require(geom3d.issolidclosed(t) is False, "closed without a face")
    try:
        v = geom3d.volumeof(t)
    except ValueError:
        pass
    else:
        require(False, "volumeof gives %r for an open solid" % v)
    t = copy.deepcopy(s)
    t[1][si][3].append(list(t[1][si][3][fi]))
    require(geom3d.issolidclosed(t) is False, "closed with a doubled face")
    t = geom3d.translatesolid(s, pt((3, 4, 5)))
    require(abs(geom3d.volumeof(t) - geom3d.volumeof(s)) < 1e-9, "volume changes with the position")
    return Out("measure %s" % name)


def boxof(lo, hi):
    from yapcad.geom3d_util import prism
    return prism(*[b - a for a, b in zip(lo, hi)], pt([(a + b) / 2 for a, b in zip(lo, hi)]))


def judge_stack(case):
    items, axis, start, gap, align = case
    from yapcad.geom3d import solidbbox
    from yapcad.geom3d_util import stack_solids
    src = [x if isinstance(x, str) else boxof(*x) for x in items]
    keep = repr(src)
    out = stack_solids(src, axis=axis, start=start, gap=gap, align=align)
    require(repr(src) == keep, "stacking changes the solids it is given")
    ax = "xyz".index(axis.lower())
    at, ref, extra, want = start, None, 0.0, []
    first = True
    for x in items:
        if isinstance(x, str):
            extra += float(x.split(":")[1])
            continue
        lo, hi = x
        pos = {"min": lambda i: lo[i], "max": lambda i: hi[i], "center": lambda i: (lo[i] + hi[i]) / 2}[align]
        if ref is None:
            ref = [pos(i) for i in range(3)]
        at += extra + (0 if first else gap)
        extra, first = 0.0, False
        d = [ref[i] - pos(i) for i in range(3)]
        d[ax] = at - lo[ax]
        want.append(([a + b for a, b in zip(lo, d)], [a + b for a, b in zip(hi, d)]))
        at += hi[ax] - lo[ax]
    require(len(out) == len(want), "%d solids placed" % len(out))
    for s, w in zip(out, want):
        vol = math.prod(b - a for a, b in zip(*w))
        verify(s, vol, w, lib=False)
    return Out("stack of %d" % len(out), steps=len(items))


def rotate(p, deg, cent, axis):
    """Rodrigues"""
    a = math.radians(deg)
    m = math.sqrt(mesh.dot(axis, axis))
    k = [x / m for x in axis]
    v = mesh.sub(p, cent)
    kv, kd = mesh.cross(k, v), mesh.dot(k, v)
    return tuple(cent[i] + v[i] * math.cos(a) + kv[i] * math.sin(a) + k[i] * kd * (1 - math.cos(a)) for i in range(3))


def judge_pattern(case):
    what, of, count, a, b, c = case
    from yapcad import geom3d_util as u
    base = boxof((1, 0, 0), (2, 1, 3))
    if of == "surface":
        base = base[1][2]
    keep = repr(base)
    if what == "linear":
        out = getattr(u, "linear_pattern_" + of)(base, count, list(a))
        move = lambda i, p: tuple(p[j] + i * (a[j] if j < len(a) else 0) for j in range(3))
    else:
        kw = {}
        if a is not None:
            kw["center"] = pt(a)
        if b is not None:
            kw["axis"] = pt(b)
        if c is not None:
            kw["angle"] = c
        out = getattr(u, "radial_pattern_" + of)(base, count, **kw)
        total = 360.0 if c is None else c
        step = total / count if abs(total - 360) < 1e-9 else (total / (count - 1) if count > 1 else 0)
        move = lambda i, p: rotate(p, i * step, a or (0, 0, 0), b or (0, 0, 1))
    require(repr(base) == keep, "the pattern changes its base")
    require(len(out) == count, "%d copies" % len(out))
    for i, s in enumerate(out):
        sb, ss = (base, s) if of == "solid" else (["solid", [base]], ["solid", [s]])
        vb, vs = verts(sb), verts(ss)
        require(len(vb) == len(vs), "copy %d has %d vertices" % (i, len(vs)))
        for p, q in zip(vb, vs):
            require(dist(move(i, p), q) < 1e-6, "copy %d has %r at %r" % (i, p, q))
        require(mesh.normals(ss) == 0, "copy %d is inside out" % i)
    return Out("%s pattern of %d" % (what, count), steps=count)


def run(ctx):
    places = [(0, 0, 0), (3.3, -2.125, 5.005), (-250.5, 100.25, 7)]
    sizes = (.1, 1, 2.5, 7.3, 500)
    K = []
    K.append(("prism", [(a, b, c, p) for a in sizes for b in sizes for c in sizes for p in places]))
    K.append(("ball", [("sphere", d, 0., n, p) for d in sizes for n in range(4) for p in places]
              + [("oblate", d, o, n, p) for d in sizes for o in (0., .1, .5, .9) for n in range(ctx.pick(3, 4)) for p in places]))
    K.append(("dode", [(d, p) for d in sizes for p in places]))
    angs = (45, 30, 11, 7.7, 1, None)
    K.append(("conic", [(a, b, h, g, p) for a in (.1, 1, 7.3, 100) for b in (0, .1, 1, 7.3, 100) for h in (.1, 1, 33.3) for g in (angs if ctx.thorough else (45, 30, 11, None)) for p in places
                        if min(a, b or a) * (g or 1) > 1 and (g != 1 or p == places[0])]))
    K.append(("tube", [(a, b, w * min(a, b or a), h, g, p, k) for a in (1, 7.3, 100) for b in (None, 1, 7.3, 100) for w in (.1, .33, .45) for h in (.1, 33.3)
                       for g, p, k in ((30, places[0], "none"), (11, places[1], "center"), (45, places[2], "base_point")) + ctx.pick((), ((None, places[1], "center"), (3, places[0], "none")))]))
    K.append(("shell", [(d, w * d, s, g, st, p) for d in (2, 7.3, 100) for w in (.05, .2, .4) for s in (1., math.pi, 2 * math.pi, 8., 11., 4 * math.pi)
                        for g, st in ctx.pick(((30, 4), (20, 9)), ((30, 4), (20, 9), (12, 24), (5, 24))) for p in places]))
    rad = (.5, 1, 3)
    rev = []
    for k in range(1, ctx.pick(5, 6)):
        for mid in itertools.product(rad, repeat=k - 1):
            for a in (0,) + rad:
                for b in (0,) + rad:
                    if k == 1 and not (a or b):
                        continue
                    for z0, dz, n in ((0., 3., 5), (-1., .7, 12), (12.5, 40., 3))[:ctx.pick(3 if k < 4 else 1, 3)]:
                        rev.append(((a,) + mid + (b,), z0, dz, n))
    K.append(("rev", rev))
    grid = [(x, y) for x in range(3) for y in range(3)]
    ways = [((0, 1, 0), (2, 1, 0)), ((0, 1, 0), (2, .5, 1)), ((3, 1, 0), (1, 2, -1)), ((0, 1, 0), (1, 2, 0), (2, 1, 3)), ((4, 1, 0), (3, .5, 1), (1, 2, 3), (0, 1, 0)), ((0, 1, 0), (1, 1, 0), (2, 1, 0))]
    lofts = []
    i = 0
    for n in range(3, ctx.pick(7, 10)):
        for p in polygons(grid, n):
            for w in ways:
                for back in (False, True):
                    i += 1
                    lofts.append((p, w, back, i % 3 == 0, i % n))
    K.append(("loft", lofts))
    K.append(("measure", [(k, s, f) for k in SMALL for s in range(12) for f in range(80)]))
    boxes = [((0, 0, 0), (1, 2, 3)), ((-1, 4, 2), (3, 5, 4)), ((10, 10, 10), (10.5, 10.5, 20))]
    stacks = []
    for k in range(0, ctx.pick(4, 5)):
        for items in itertools.product(boxes[:2] + ["space:2", "space:-0.5"], repeat=k):
            for axis, start, gap in (("z", 0., 0.), ("X", -3., .5), ("y", 7., 0.), ("x", 0., -1.)):
                for align in ("center", "min", "max"):
                    stacks.append((items, axis, start, gap, align))
    stacks += [(tuple(p), "z", 1., .25, al) for p in itertools.permutations(boxes) for al in ("center", "min", "max")]
    K.append(("stack", stacks))
    pats = []
    for of in ("solid", "surface"):
        for n in range(1, 9):
            for a in ((1, 2, 3), (0, -4), (5, 0, 0), (0, 0, 0), (1, 1, 1, 0)):
                pats.append(("linear", of, n, a, None, None))
            for a in (None, (1, 2, 0), (5, 5, 5)):
                for b in (None, (1, 0, 0), (1, 2, 2), (0, 0, -3)):
                    for c in (None, 360., 90., 180., -120., 720., 0.):
                        pats.append(("radial", of, n, a, b, c))
    K.append(("pattern", pats))
    ctx.explore(judge, [(k, v, 40) for k, v in K])
    ctx.assumptions.append("no OpenCASCADE here: the builders that need it (extrude_region2d, sweeps, helical_extrude) are not reached, and the attached BREP is not judged")
