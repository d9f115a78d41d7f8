"""P44: triangles, planes and solids meet exactly where they do."""
import itertools
import math
from fractions import Fraction as Fr

from mc.core import Out, h, require as _require

META = {
    "id": "P44",
    "title": "Triangles, planes and solids meet exactly where they do",
    "statement": "`triTriIntersect` reports an intersection of two triangles exactly when they have one, and returns the segment (or, for coplanar triangles, the polygon) that lies inside both, whichever comes first, however their corners are ordered and wherever both are placed. `linePlaneIntersect` returns the one point of a segment (or of its whole line) that lies on a cardinal plane, a planar basis or a triangle, or False. `solids_intersect` is true exactly when two solids share a point.",
    "over": ["inputs"],
    "forall": "every triangle of the {0,1,2}^3 lattice against every triangle of a basis of shapes, in both orders and in rigid poses; every lattice segment against every plane; every pair of placed solids of the grid",
    "why": "The wrong answers come with triangles whose planes cross outside them, shared corners and parallel planes; the suite asserts three coplanar pairs.",
    "files": ["src/yapcad/geom3d.py", "src/yapcad/boolean/native.py"],
    "mech": [["triangles", "geom3d.py:triTriIntersect"], ["planes", "geom3d.py:linePlaneIntersect"], ["solids", "boolean/native.py:solids_intersect"]],
    "technique": "explicit enumeration of lattice triangles, segments and solid placements against the real predicates, judged in exact rational arithmetic",
    "note": "coplanar triangles that only touch, and solids that only touch, are left out",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def lerp(a, b, t):
    return tuple(x + (y - x) * t for x, y in zip(a, b))


def slice_(tri, n, o):
    """Exact part of the triangle in the plane through o with normal n: points."""
    s = [dot(n, sub(p, o)) for p in tri]
    pts = [p for p, d in zip(tri, s) if d == 0]
    for i in range(3):
        j = (i + 1) % 3
        if s[i] * s[j] < 0:
            pts.append(lerp(tri[i], tri[j], Fr(s[i], s[i] - s[j])))
    return pts


def meet(a, b):
    """Exact intersection: None, a list of 1 or 2 points, or ("plane", area vector squared)."""
    na, nb = cross(sub(a[1], a[0]), sub(a[2], a[0])), cross(sub(b[1], b[0]), sub(b[2], b[0]))
    d = cross(na, nb)
    if not any(d):
        if dot(na, sub(b[0], a[0])) != 0:
            return None
        return ("plane", clip(a, b, na))
    pa, pb = slice_(a, nb, b[0]), slice_(b, na, a[0])
    if not pa or not pb:
        return None
    ia, ib = sorted((dot(d, p), p) for p in pa), sorted((dot(d, p), p) for p in pb)
    lo, hi = max(ia[0], ib[0]), min(ia[-1], ib[-1])
    if lo[0] > hi[0]:
        return None
    return [lo[1], hi[1]]


def clip(a, b, n):
    """Area of the overlap of coplanar triangles, times the length of n (exact)."""
    poly = [tuple(map(Fr, p)) for p in b]
    for i in range(3):
        s, e = a[i], a[(i + 1) % 3]
        inward = cross(n, sub(e, s))
        out = []
        for j in range(len(poly)):
            p, q = poly[j], poly[(j + 1) % len(poly)]
            dp, dq = dot(inward, sub(p, s)), dot(inward, sub(q, s))
            if dp >= 0:
                out.append(p)
            if dp * dq < 0:
                out.append(lerp(p, q, dp / (dp - dq)))
        poly = out
        if not poly:
            return 0
    tot = 0
    for j in range(1, len(poly) - 1):
        tot += dot(n, cross(sub(poly[j], poly[0]), sub(poly[j + 1], poly[0])))
    return abs(tot)


def rot(deg, axis):
    k = math.sqrt(dot(axis, axis))
    x, y, z = (c / k for c in axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    C = 1 - c
    return ((c + x * x * C, x * y * C - z * s, x * z * C + y * s), (y * x * C + z * s, c + y * y * C, y * z * C - x * s), (z * x * C - y * s, z * y * C + x * s, c + z * z * C))


IDENT = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
POSES = [(IDENT, (0, 0, 0)), (rot(37, (1, 2, 3)), (4, -7, 2)), (rot(90, (0, 1, 0)), (0, 0, 100)), (rot(180, (1, 0, 0)), (-3, 0, 0.5))]


def place(pose, p):
    m, t = pose
    return tuple(sum(m[i][j] * float(p[j]) for j in range(3)) + t[i] for i in range(3))


def pts(tri, pose, closed):
    from yapcad.geom import point
    out = [point(*place(pose, p)) for p in tri]
    return out + [list(out[0])] if closed else out


def judge_tri(case):
    """One triangle against a batch of others, in both orders."""
    from yapcad.geom3d import triTriIntersect, tri2p0n
    a, others, pi, closed = case
    pose = POSES[pi]
    A = pts(a, pose, closed)
    n = 0
    seen = []
    for k, b in enumerate(others):
        want = meet(a, b)
        if isinstance(want, tuple) and want[1] == 0 and any(dot(sub(p, q), sub(p, q)) >= 0 for p in a for q in b):
            # coplanar, without an area in common: only clearly apart ones are judged
            if not apart(a, b):
                continue
        B = pts(b, pose, closed)
        for first, second in ((A, B), (B, A)):
            before = repr((first, second))
            got = triTriIntersect(first, second)
            n += 1
            require(repr((first, second)) == before, "{} {}: the triangles were changed", a, b)
            if want is None or (isinstance(want, tuple) and want[1] == 0):
                require(got is False or not got, "{} {} (pose {}): apart, but {}", a, b, pi, got)
            elif isinstance(want, tuple):
                require(bool(got), "{} {} (pose {}): coplanar and overlapping, but {}", a, b, pi, got)
                area = polyarea(got)
                na = cross(sub(a[1], a[0]), sub(a[2], a[0]))
                ref = float(want[1]) / math.sqrt(dot(na, na)) / 2
                require(abs(area - ref) < 1e-4, "{} {} (pose {}): overlap of area {} want {}", a, b, pi, area, ref)
            else:
                require(bool(got) and len(got) == 2, "{} {} (pose {}): they meet in {} but {}", a, b, pi, want, got)
                ends = [place(pose, p) for p in want]
                d = min(max(math.dist(got[0][:3], ends[i]), math.dist(got[1][:3], ends[1 - i])) for i in (0, 1))
                require(d < 1e-4, "{} {} (pose {}): they meet in {} but {}", a, b, pi, ends, got)
                # the same in the basis of the first, and on the infinite line
                if k % 3 == 0:
                    basis = tri2p0n(first, basis=True)
                    flat = triTriIntersect(first, second, inPlane=True)
                    back = [basis[3].mul(p) for p in flat]
                    require(all(abs(p[2]) < 1e-6 for p in flat) and min(max(math.dist(back[0][:3], ends[i]), math.dist(back[1][:3], ends[1 - i])) for i in (0, 1)) < 1e-4, "{} {}: in the plane {} want {}", a, b, flat, ends)
                    again = triTriIntersect(first, second, basis=basis)
                    require(max(math.dist(again[i][:3], got[i][:3]) for i in (0, 1)) < 1e-9, "{} {}: with its basis {} without {}", a, b, again, got)
            if k % 2 == 0:
                na, nb = (cross(sub(t[1], t[0]), sub(t[2], t[0])) for t in (a, b))
                d = cross(na, nb)
                if any(d):
                    line = triTriIntersect(first, second, inside=False)
                    require(bool(line) and len(line) == 2, "{} {}: planes cross, but {}", a, b, line)
                    require(math.dist(line[0][:3], line[1][:3]) > 1e-3, "{} {}: the line {} is one point", a, b, line)
                    for p in line:
                        for t in (first, second):
                            nn = cross(sub(t[1][:3], t[0][:3]), sub(t[2][:3], t[0][:3]))
                            off = dot(nn, sub(p[:3], t[0][:3])) / math.sqrt(dot(nn, nn))
                            require(abs(off) < 1e-4, "{} {}: {} of the line is {} off a plane", a, b, p, off)
                elif dot(na, sub(b[0], a[0])) != 0:
                    require(not triTriIntersect(first, second, inside=False), "{} {}: parallel planes have a line", a, b)
        seen.append(b)
    return Out("triangles", [h(repr((a, b, pi, closed))) for b in seen], n) if n else None


def apart(a, b):
    """Coplanar triangles with a line strictly between them."""
    n = cross(sub(a[1], a[0]), sub(a[2], a[0]))
    for x, y in ((a, b), (b, a)):
        for i in range(3):
            s, e, o = x[i], x[(i + 1) % 3], x[(i + 2) % 3]
            w = cross(n, sub(e, s))
            side = dot(w, sub(o, s))
            if all(dot(w, sub(p, s)) * side < 0 for p in y):
                return True
    return False


def polyarea(g):
    """Area of a closed list of lines, or of points, in space."""
    ps = [e[0] for e in g] if isinstance(g[0][0], (list, tuple)) else list(g)
    v = [0.0, 0.0, 0.0]
    for i in range(1, len(ps) - 1):
        c = cross(sub(ps[i][:3], ps[0][:3]), sub(ps[i + 1][:3], ps[0][:3]))
        v = [x + y for x, y in zip(v, c)]
    return math.sqrt(dot(v, v)) / 2


# ---- lines and planes

PLANES = {"xy": ((0, 0, 0), (0, 0, 1)), "yz": ((0, 0, 0), (1, 0, 0)), "xz": ((0, 0, 0), (0, 1, 0))}


def judge_line(case):
    from yapcad.geom3d import linePlaneIntersect, tri2p0n
    from yapcad.geom import point
    a, plane, form = case
    tri = None
    if isinstance(plane, str):
        o, n = PLANES[plane]
        arg = plane
    else:
        tri = plane
        o, n = tri[0], cross(sub(tri[1], tri[0]), sub(tri[2], tri[0]))
        arg = [point(*p) for p in tri]
        if form == "basis":
            arg = tri2p0n(arg, basis=True)
        elif form == "closed":
            arg = arg + arg[:1]
    cnt = 0
    for b in itertools.product((-1, 0, 2), repeat=3):
        if b == a:
            continue
        da, db = dot(n, sub(a, o)), dot(n, sub(b, o))
        lne = [point(*a), point(*b)]
        for inside in (True, False, None):
            cnt += 1
            got = linePlaneIntersect(lne, arg) if inside is None else linePlaneIntersect(lne, arg, inside)
            ins = inside is not False
            if da == db:
                require(not got, "{} {} {}: parallel, but {}", a, b, case[1:], got)
                continue
            t = Fr(da, da - db)
            p = lerp(a, b, t)
            if ins and not 0 <= t <= 1:
                require(not got, "{} {} {}: beyond the segment, but {}", a, b, case[1:], got)
                continue
            if ins and tri and form != "basis":
                w = [dot(n, cross(sub(tri[(i + 1) % 3], tri[i]), sub(p, tri[i]))) for i in range(3)]
                if any(x == 0 for x in w) or t in (0, 1):
                    continue                   # on the rim: rounding decides
                if any(x < 0 for x in w):
                    require(not got, "{} {} {}: outside the triangle, but {}", a, b, case[1:], got)
                    continue
            elif ins and t in (0, 1) and not isinstance(plane, str):
                continue
            require(got and math.dist(got[:3], [float(x) for x in p]) < 1e-6, "{} {} {} inside={}: {} want {}", a, b, case[1:], inside, got, [float(x) for x in p])
    return Out("lines", [h(repr(case))], cnt)


# ---- solids

def solid(s):
    from yapcad.geom import point
    from yapcad.geom3d import translatesolid
    from yapcad import geom3d_util as u
    k, c, z = s
    if k == "box":
        return u.prism(z[0], z[1], z[2], point(*c))
    if k == "ball":
        return u.sphere(2 * z[0], point(*c), depth=1)
    if k == "tube":
        return translatesolid(u.tube(2 * z[0], z[1], z[2]), point(c[0], c[1], c[2] - z[2] / 2))
    raise AssertionError(k)



def together(a, b):
    """True / False / None: whether the solids share a point (None: too close to say)."""
    e = 0.02
    if (a[0], b[0]) == ("box", "box"):
        over = [a[2][i] / 2 + b[2][i] / 2 - abs(a[1][i] - b[1][i]) for i in range(3)]
        return True if min(over) > e else False if min(over) < -e else None
    if b[0] == "box" and a[0] in ("ball", "tube"):
        return together(b, a)
    if (a[0], b[0]) == ("box", "ball"):
        d = math.sqrt(sum(max(0.0, abs(a[1][i] - b[1][i]) - a[2][i] / 2) ** 2 for i in range(3)))
        r = b[2][0]
        return True if d < 0.85 * r - e else False if d > r + e else None
    if (a[0], b[0]) == ("ball", "ball"):
        d = math.dist(a[1], b[1])
        return True if d < 0.85 * (a[2][0] + b[2][0]) - e else False if d > a[2][0] + b[2][0] + e else None
    # box a and tube b (outer radius z0, wall z1, height z2, axis z)
    R, w, H = b[2]
    dz = H / 2 + a[2][2] / 2 - abs(a[1][2] - b[1][2])
    if dz < -e:
        return False
    x, y = abs(a[1][0] - b[1][0]), abs(a[1][1] - b[1][1])
    near = math.hypot(max(0, x - a[2][0] / 2), max(0, y - a[2][1] / 2))
    far = math.hypot(x + a[2][0] / 2, y + a[2][1] / 2)
    if near > R + e or far < 0.97 * (R - w) - e:
        return False
    if dz > e and near < 0.97 * R - e and far > (R - w) + e:
        return True
    return None


def judge_solids(case):
    from yapcad.geom3d import solids_intersect
    a, b = case
    want = together(a, b)
    if want is None:
        return None
    sa, sb = solid(a), solid(b)
    before = repr((sa[1], sb[1]))
    for x, y, w in ((sa, sb, "ab"), (sb, sa, "ba")):
        got = solids_intersect(x, y)
        require(bool(got) == want, "{} ({}): {} but solids_intersect is {}", case, w, "they meet" if want else "they are apart", got)
    for s, k in ((sa, a), (sb, b)):
        require(solids_intersect(s, s), "{}: a solid does not meet itself", k)
    return Out("solids", [h(repr(case))], 4)


def run(ctx):
    t = ctx.thorough
    grid = list(itertools.product((0, 1, 2), repeat=3))
    tris = []
    for k, c in enumerate(itertools.combinations(grid, 3)):
        if any(cross(sub(c[1], c[0]), sub(c[2], c[0]))):
            i = k % 6
            tris.append(tuple(list(itertools.permutations(c))[i]))
    bases = [((0, 0, 0), (2, 0, 0), (0, 2, 0)), ((2, 2, 1), (0, 1, 1), (1, 0, 1)), ((0, 0, 0), (0, 2, 1), (2, 1, 2)), ((1, 0, 0), (1, 2, 0), (1, 1, 2)), ((0, 0, 0), (2, 2, 0), (2, 2, 2)), ((0, 1, 2), (2, 0, 1), (1, 2, 0))]
    if t:
        bases += tris[::31]
    cs = []
    for i, b in enumerate(bases):
        for pi in range(len(POSES)) if t or i < 1 else ((0, 1) if i < 3 else (i % 4,)):
            step = 1
            some = tris[(i + pi) % step::step]
            for k in range(0, len(some), 20):
                cs.append((b, tuple(some[k:k + 20]), pi, (k // 20 + i) % 3 == 0))
    planes = ["xy", "yz", "xz"] + bases[:5]
    ls = [(a, p, f) for a in itertools.product((-1, 1, 2) if not t else (-1, 0, 1, 2, 3), repeat=3) for p in planes for f in (("",) if isinstance(p, str) else ("", "basis", "closed"))]
    A = [("box", (0, 0, 0), (2, 2, 2)), ("ball", (0, 0, 0), (1.5,)), ("tube", (0, 0, 0), (3, 0.5, 4)), ("box", (0, 0, 0), (6, 0.5, 3))]
    at = list(itertools.product((0, 1.1, 2.4, 3.3), (0, 2.7) if not t else (0, -1.2, 2.7), (0, 1.7, 2.6)))
    B = [(k, c, z) for k, z in (("box", (1, 1, 1)), ("ball", (0.7,)), ("box", (8, 9, 10)), ("box", (0.4, 0.4, 12))) for c in at]
    so = [(a, b) for a in A for b in B if (a[0], b[0]) != ("tube", "ball")]
    ctx.notes["triangles"] = len(tris)
    ctx.explore(judge, [("tri", cs, 4), ("line", ls, 20), ("solids", so, 4)], batch=4)
