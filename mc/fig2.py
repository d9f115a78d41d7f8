"""Independent reference for planar figures (points, lines, arcs, polys, lists).

A figure is a plain tuple:
    ("pt", x, y, z)   ("ln", p, q)   ("arc", c, r, start, end, reversed)
    ("ply", points)   ("gl", figures)
with p, q, c = (x, y, z).  Only the documented semantics of yapcad.geom are
used here; nothing is imported from it except to build the yapCAD value.
"""
import math

EPS = 5e-6


def build(f):
    k = f[0]
    if k == "pt":
        return [float(f[1]), float(f[2]), float(f[3]), 1.0]
    if k == "ln":
        return [list(map(float, p)) + [1.0] for p in f[1:3]]
    if k == "arc":
        return [list(map(float, f[1])) + [1.0], [f[2], f[3], f[4], -2 if f[5] else -1]]
    if k == "ply":
        return [list(map(float, p)) + [1.0] for p in f[1]]
    return [build(x) for x in f[1]]


def sub(a, b):
    return tuple(x - y for x, y in zip(a[:3], b[:3]))


def add(a, b):
    return tuple(x + y for x, y in zip(a[:3], b[:3]))


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a[:3], b[:3])))


def lerp(a, b, u):
    return tuple(x * (1 - u) + y * u for x, y in zip(a, b))


def sweep(f):
    """(start, extent) in degrees; a circle is exactly start 0 and end 360"""
    s, e = f[3], f[4]
    if s == 0 and e == 360:
        return 0.0, 360.0
    s, e = s % 360.0, e % 360.0
    return s, (e - s if e >= s else e + 360.0 - s)


def circle(f):
    return f[0] == "arc" and f[3] == 0 and f[4] == 360


def on(c, r, deg):
    q, rem = divmod(deg % 360.0, 90.0)
    if rem == 0:
        x, y = [(1, 0), (0, 1), (-1, 0), (0, -1)][int(q) % 4]
    else:
        x, y = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return (c[0] + r * x, c[1] + r * y, c[2])


def closed(f):
    return f[0] == "ply" and dist(f[1][0], f[1][-1]) < EPS


def parts(f):
    if f[0] == "ply":
        return [("ln", a, b) for a, b in zip(f[1], f[1][1:])]
    return list(f[1])


def length(f):
    k = f[0]
    if k == "pt":
        return 0.0
    if k == "ln":
        return dist(f[1], f[2])
    if k == "arc":
        return math.radians(sweep(f)[1]) * f[2]
    return sum(length(x) for x in parts(f))


def sample(f, u):
    """set of acceptable points: a list (two at a jump between elements)"""
    k = f[0]
    if k == "pt":
        return [f[1:4]]
    if k == "ln":
        return [lerp(f[1], f[2], u)]
    if k == "arc":
        s, d = sweep(f)
        return [on(f[1], f[2], s + d * ((1 - u) if f[5] else u))]
    if closed(f):
        u %= 1.0
    ps = [x for x in parts(f) if length(x) > EPS]
    if not ps:
        return sample(parts(f)[0], 0.0) + sample(parts(f)[-1], 1.0)
    L = [length(x) for x in ps]
    want = u * sum(L)
    out, d = [], 0.0
    for i, (x, l) in enumerate(zip(ps, L)):
        lo, hi = d, d + l
        if (want >= lo - 1e-9 * max(1, hi) or i == 0) and (want <= hi + 1e-9 * max(1, hi) or i == len(ps) - 1):
            out += sample(x, (want - lo) / l)
        d = hi
    return out


def bounds(f):
    """exact ((xmin, ymin, zmin), (xmax, ymax, zmax))"""
    k = f[0]
    if k == "pt":
        pts = [f[1:4]]
    elif k == "ln":
        pts = [f[1], f[2]]
    elif k == "ply":
        pts = f[1]
    elif k == "arc":
        s, d = sweep(f)
        pts = [on(f[1], f[2], s), on(f[1], f[2], s + d)]
        for q in range(0, 1081, 90):
            if s <= q <= s + d:
                pts.append(on(f[1], f[2], q))
    else:
        pts = [p for x in f[1] for p in bounds(x)]
    return tuple(tuple(g(p[i] for p in pts) for i in range(3)) for g in (min, max))


def to_figure(f, p):
    """distance from p to the figure (its 0..1 domain)"""
    k = f[0]
    if k == "pt":
        return dist(f[1:4], p)
    if k == "ln":
        v, w = sub(f[2], f[1]), sub(p, f[1])
        n = sum(x * x for x in v)
        t = 0.0 if n == 0 else max(0.0, min(1.0, sum(x * y for x, y in zip(v, w)) / n))
        return dist(lerp(f[1], f[2], t), p)
    if k == "arc":
        c, r = f[1], f[2]
        s, d = sweep(f)
        ends = min(dist(on(c, r, s), p), dist(on(c, r, s + d), p))
        a = math.degrees(math.atan2(p[1] - c[1], p[0] - c[0]))
        if (a - s) % 360.0 <= d:
            return math.hypot(math.hypot(p[0] - c[0], p[1] - c[1]) - r, p[2] - c[2])
        return ends
    return min(to_figure(x, p) for x in parts(f))


def reverse(f):
    k = f[0]
    if k == "pt":
        return f
    if k == "ln":
        return ("ln", f[2], f[1])
    if k == "arc":
        return f[:5] + (not f[5],)
    if k == "ply":
        return ("ply", tuple(reversed(f[1])))
    return ("gl", tuple(reverse(x) for x in reversed(f[1])))


def parse(v):
    """yapCAD value -> figure tuple"""
    if isinstance(v, list) and len(v) == 4 and all(isinstance(c, (int, float)) for c in v):
        return ("pt",) + tuple(v[:3])
    if not isinstance(v, list):
        raise ValueError("not a figure: %r" % (v,))
    if len(v) in (2, 3) and isinstance(v[1], list) and len(v[1]) == 4 and v[1][3] in (-1, -2) and not isinstance(v[0][0], list):
        return ("arc", tuple(v[0][:3]), v[1][0], v[1][1], v[1][2], v[1][3] == -2)
    isp = lambda p: isinstance(p, list) and len(p) == 4 and not isinstance(p[0], list) and p[3] > 0
    if len(v) == 2 and all(map(isp, v)):
        return ("ln", tuple(v[0][:3]), tuple(v[1][:3]))
    if len(v) > 2 and all(map(isp, v)):
        return ("ply", tuple(tuple(p[:3]) for p in v))
    return ("gl", tuple(parse(x) for x in v))
