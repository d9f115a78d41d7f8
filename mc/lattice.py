"""Exact integer reference for polygons with lattice points."""
from collections import Counter


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def onseg(a, b, p):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def meets(a, b, c, d):
    s = [(x > 0) - (x < 0) for x in (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b))]
    if s[0] * s[1] < 0 and s[2] * s[3] < 0:
        return True
    return onseg(a, b, c) or onseg(a, b, d) or onseg(c, d, a) or onseg(c, d, b)


def simple(P):
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        for j in range(i + 1, n):
            c, d = P[j], P[(j + 1) % n]
            if j == i + 1:
                if onseg(a, b, d) or onseg(c, d, a):
                    return False
            elif (j + 1) % n == i:
                if onseg(c, d, b) or onseg(a, b, c):
                    return False
            elif meets(a, b, c, d):
                return False
    return True


def area2(P):
    return sum(P[i][0] * P[(i + 1) % len(P)][1] - P[(i + 1) % len(P)][0] * P[i][1] for i in range(len(P)))


def polygons(pts, n):
    """every simple polygon with n of the points, once, counter-clockwise

    Points may lie straight between their neighbours.
    """
    pts = sorted(pts)

    def rec(path):
        if len(path) == n:
            if path[1] < path[-1] and simple(path) and area2(path):
                yield tuple(path) if area2(path) > 0 else tuple(path[:1] + path[:0:-1])
            return
        for q in pts:
            if q <= path[0] or q in path:
                continue
            a = path[-1]
            if len(path) > 1 and (onseg(a, q, path[-2]) or onseg(path[-2], a, q)):
                continue
            if any(meets(path[i], path[i + 1], a, q) for i in range(len(path) - 2)):
                continue
            yield from rec(path + [q])

    for p in pts:
        yield from rec([p])


def covers(tris, outer, holes):
    """None if the triangles split the region exactly, or what is wrong

    Triangles wound counter-clockwise whose edges cancel but for the rings
    wind once around each point of the region and never around another.
    """
    E = Counter()
    for t in tris:
        if orient(*t) <= 0:
            return "triangle %r is flat or clockwise" % (t,)
        for i in range(3):
            E[(t[i - 1], t[i])] += 1
    B = Counter()
    for ring, sign in [(outer, 1)] + [(x, -1) for x in holes]:
        if area2(ring) * sign < 0:
            ring = ring[::-1]
        for i in range(len(ring)):
            B[(ring[i - 1], ring[i])] += 1
    for e in set(E) | set(B):
        back = (e[1], e[0])
        if E[e] > 1:
            return "two triangles have the edge %r" % (e,)
        if E[e] - E[back] != B[e] - B[back]:
            return "edge %r of the triangles is no edge of the polygon, or the other way round" % (e,)
    return None
