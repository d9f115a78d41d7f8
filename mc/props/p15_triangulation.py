"""P15: polygons with holes are triangulated exactly."""
import itertools
import math

from mc import mesh
from mc.core import Out, require
from mc.lattice import area2, covers, polygons, simple

META = {
    "id": "P15",
    "title": "Polygon surfaces cover exactly the polygon less its holes",
    "statement": "`triangulate_polygon`, `poly2surfaceXY` and `poly2surface` split any simple polygon less its disjoint holes into triangles that cover it exactly once, use each corner of the outline and the holes (also corners on a straight run) and no other point, and all face the side the stored normals point to, whatever the winding, starting corner, plane, size or position. The surface lists the outline and each hole, and `extrude` of it, towards any side, is a closed solid that faces outwards and has the volume of the prism. Caller values are not changed.",
    "over": ["inputs"],
    "forall": "every simple polygon over lattices of points, with every starting corner and winding, every pair of holes over a lattice and every placing of up to four holes in a grid, under exact and inexact placements of scale, distance, rotation and plane",
    "why": "Ear clipping goes wrong for particular constellations of collinear corners, holes in a row and windings; the suite triangulates a handful of polygons.",
    "files": ["src/yapcad/triangulator.py", "src/yapcad/geom3d.py", "src/yapcad/geom3d_util.py"],
    "mech": [["triangulation", "triangulator.py:triangulate_polygon"], ["plane surface", "geom3d.py:poly2surfaceXY"], ["surface in space", "geom3d.py:poly2surface"], ["prism", "geom3d_util.py:extrude"]],
    "technique": "explicit enumeration of polygons and holes over lattices against the real triangulator, each result certified exactly in integers by its edge chain and orientation",
    "note": "holes are disjoint and inside of the outline; shapes whose features are smaller than the tolerance of the library are not judged",
}

PLACES = {
    "id": lambda x, y: (float(x), float(y)),
    "small": lambda x, y: (x * .013, y * .013),
    "milli": lambda x, y: (x * .001, y * .001),
    "far": lambda x, y: (x * .25 + 70000.125, y * .25 - 30000.5),
    "turn": lambda x, y: (x * math.cos(.5) - y * math.sin(.5), x * math.sin(.5) + y * math.cos(.5)),
    "turnfar": lambda x, y: (1234.5 + .7 * (x * math.cos(.5) - y * math.sin(.5)), .7 * (x * math.sin(.5) + y * math.cos(.5)) - 987.1),
    "flip": lambda x, y: (-3. * x, 2. * y),
    "turnmilli": lambda x, y: (.001 * (x * math.cos(.5) - y * math.sin(.5)), .001 * (x * math.sin(.5) + y * math.cos(.5))),
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def place(name, ring):
    return [PLACES[name](*p) for p in ring]


def ring(r, start, back):
    r = r[start:] + r[:start]
    return r[::-1] if back else r


def lattice(tris, name, rings):
    """triangles back on the lattice"""
    look = {}
    for r in rings:
        for p in r:
            look[PLACES[name](*p)] = p
    mirror = name == "flip"
    out = []
    for t in tris:
        for p in t:
            require(tuple(p) in look, "triangle corner %r is no corner of the polygon" % (p,))
        t = tuple(look[tuple(p)] for p in t)
        out.append(t[::-1] if mirror else t)
    return out


def judge_tri(case):
    """outline, holes, placement: all starting corners and both windings"""
    outer, holes, name = case
    from yapcad.triangulator import triangulate_polygon

    n = 0
    for start in range(len(outer)):
        for back in (False, True):
            o = ring(outer, start, back)
            hs = [ring(x, start % len(x), back ^ (i % 2 == 0)) for i, x in enumerate(holes)]
            po, ph = place(name, o), [place(name, x) for x in hs]
            if (start + back) % 2:  # closing points are allowed
                po, ph = po + po[:1], [x + x[:1] for x in ph]
            keep = (list(po), [list(x) for x in ph])
            tris = triangulate_polygon(po, ph)
            require((po, ph) == keep, "arguments changed")
            bad = covers(lattice(tris, name, (o,) + tuple(hs)), outer, holes)
            require(bad is None, "from corner %d%s: %s; got %r" % (start, " backwards" if back else "", bad, tris))
            n += 1
    return Out("tri %d corners %d holes" % (len(outer), len(holes)), steps=n)


PLANES = {
    "xy": ((0., 0., 0.), (1., 0., 0.), (0., 1., 0.)),
    "z5": ((1., -2., 5.), (1., 0., 0.), (0., 1., 0.)),
    "zx": ((0., 3., 0.), (0., 0., 1.), (1., 0., 0.)),
    "down": ((0., 0., -1.), (0., 1., 0.), (1., 0., 0.)),
    "tilt": ((.5, 4., -2.), (2 / 3., 2 / 3., 1 / 3.), (-2 / 3., 1 / 3., 2 / 3.)),
}


def lift(plane, p):
    o, u, v = PLANES[plane]
    return tuple(o[i] + p[0] * u[i] + p[1] * v[i] for i in range(3))


def judge_surf(case):
    """outline, holes, placement, plane, function, start, back, direction"""
    outer, holes, name, plane, func, start, back, way = case
    from yapcad import geom3d
    from yapcad.geom import point, vect
    from yapcad.geom3d_util import extrude

    o = ring(outer, start, back)
    hs = [ring(x, start % len(x), back ^ (i % 2 == 0)) for i, x in enumerate(holes)]
    world = {}
    loops = []
    for r in (o,) + tuple(hs):
        loops.append([lift(plane, PLACES[name](*p)) for p in r])
        world.update(zip(loops[-1], r))
    ply = [point(*p) for p in loops[0] + loops[0][:1]]
    hps = [[point(*p) for p in x + x[:1]] for x in loops[1:]]
    keep = repr((ply, hps))
    surf, _ = getattr(geom3d, func)(ply, hps)
    require(repr((ply, hps)) == keep, "arguments changed")
    require(geom3d.issurface(surf, fast=False), "no valid surface")
    V, N, F, B, H = surf[1:6]

    u, v = PLANES[plane][1:]
    normal = mesh.cross(u, v)
    up = -1 if (name == "flip") else 1          # of lattice ccw, seen along the normal
    if func == "poly2surface":
        side = -up if back else up              # the surface faces the way its outline runs
    else:
        side = 1 if normal[2] > 0 else -1       # XY surfaces face up

    def back_to(p):
        best = min(world, key=lambda q: max(abs(a - b) for a, b in zip(p, q)))
        require(max(abs(a - b) for a, b in zip(p, best)) < 1e-6 * (1 + max(map(abs, p))), "vertex %r is no corner of the polygon" % (p,))
        return world[best]

    L = [back_to(p[:3]) for p in V]
    require(len(set(L)) == len(L) == len(world), "%d vertices for %d corners" % (len(L), len(world)))
    tris = [tuple(L[i] for i in f) for f in F]
    bad = covers(tris if side * up > 0 else [t[::-1] for t in tris], outer, holes)
    require(bad is None, "faces: %s" % bad)
    for n in N:
        require(max(abs(a - side * b) for a, b in zip(n, normal)) < 1e-6, "normal %r where the faces point to %r" % (n, [side * c for c in normal]))
    require(len(H) == len(holes), "%d holes listed" % len(H))
    for idx, want in zip([B] + list(H), (o,) + tuple(hs)):
        got = tuple(L[i] for i in idx)
        k = got.index(want[0]) if want[0] in got else 0
        require(got[k:] + got[:k] == want, "boundary %r for the loop %r" % (got, want))
    scale = abs(area2(place(name, outer)) - 0) / 2 - sum(abs(area2(place(name, x))) / 2 for x in holes)
    require(abs(geom3d.surfacearea(surf) - scale) < 1e-6 * (1 + abs(scale)), "area %r for %r" % (geom3d.surfacearea(surf), scale))

    if way:
        d = {"with": normal, "against": tuple(-c for c in normal)}.get(way)
        if d is None:
            s = [normal[i] * .6 + u[i] * .8 for i in range(3)]
            d = tuple(s)
        before = repr(surf)
        sol = extrude(surf, 2.5, vect(d[0], d[1], d[2], 0))
        require(repr(surf) == before, "extrude changes the surface")
        T = mesh.tris(sol)
        c = mesh.check(T, 1e-7)
        require(not c["open"] and not c["dup"] and not c["deg"], "the extruded solid is not closed: %r" % (c,))
        vol = scale * 2.5 * abs(mesh.dot(d, normal))
        lo = [min(p[i] for t in T for p in t) for i in range(3)]
        rel = [tuple(tuple(p[i] - lo[i] for i in range(3)) for p in t) for t in T]
        require(abs(mesh.vol(rel) - vol) < 1e-6 * (1 + vol), "the extruded solid has the signed volume %r, not %r" % (mesh.vol(rel), vol))
        ends = ["solid", [sol[1][0], sol[1][-1]]]
        require(mesh.normals(ends) == 0, "%d corners of the ends have normals that point into the extruded solid" % mesh.normals(ends))
        require(geom3d.issolidclosed(sol), "issolidclosed is false for the extruded solid")
        require(abs(geom3d.volumeof(sol) - vol) < 1e-5 * (1 + vol), "volumeof gives %r, not %r" % (geom3d.volumeof(sol), vol))
    return Out("surf %s %s" % (func, way), steps=len(F))


SHAPES = {
    "sq": ((0, 0), (2, 0), (2, 2), (0, 2)),
    "di": ((1, 0), (2, 1), (1, 2), (0, 1)),
    "tr": ((0, 0), (2, 0), (0, 2)),
    "oct": ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1)),
}
FRAME = ((-1, -1), (9, -1), (9, 9), (-1, 9))
ELL = ((-1, -1), (12, -1), (12, 9), (9, 9), (9, 12), (-1, 12))
STRIP = tuple((x, -1) for x in range(-1, 10)) + tuple((x, 9) for x in range(9, -2, -1))


def at(shape, x, y):
    return tuple((p[0] + x, p[1] + y) for p in SHAPES[shape])


def run(ctx):
    grid = [(x, y) for x in range(3) for y in range(3)]
    wide = [(x, y) for x in range(4) for y in range(3)]
    big = [(x, y) for x in range(4) for y in range(4)]
    tri, surf = [], []
    p33 = [p for n in range(3, 10) for p in polygons(grid, n)]
    p43 = [p for n in range(3, ctx.pick(7, 11)) for p in polygons(wide, n)]
    p44 = [p for n in range(3, ctx.pick(5, 7)) for p in polygons(big, n)]
    for name in PLACES:
        tri += [(p, (), name) for p in p33]
    for name in ("id", "turnfar"):
        tri += [(p, (), name) for p in p43 + p44]

    # one hole of any form, two holes of any form
    box = ((-1, -1), (3, -1), (3, 3), (-1, 3))
    tri += [(box, (p,), name) for p in p33 for name in PLACES]
    left = [p for n in range(3, 7) for p in polygons([(x, y) for x in range(2) for y in range(3)], n)]
    room = ((-1, -1), (5, -1), (5, 3), (-1, 3))
    pairs = [(room, (a, tuple((x + 3, y) for x, y in b))) for a in left for b in left]
    tri += [(o, hs, name) for o, hs in pairs for name in ctx.pick(("id", "turn"), tuple(PLACES))]
    # holes in a grid
    spots = [(x, y) for x in (0, 3, 6) for y in (0, 3, 6)]
    placed = []
    for k in range(1, ctx.pick(5, 7)):
        for c in itertools.combinations(spots, k):
            for shape in SHAPES:
                placed.append((FRAME, tuple(at(shape, *s) for s in c)))
            placed.append((ELL, tuple(at(list(SHAPES)[i % 4], *s) for i, s in enumerate(c))))
            if k < 4:
                placed.append((STRIP, tuple(at("sq", *s) for s in c)))
    tri += [(o, hs, name) for o, hs in placed for name in ctx.pick(("id",), tuple(PLACES))]
    few = [x for x in placed if len(x[1]) <= 2]
    tri += [(o, hs, name) for o, hs in few for name in PLACES if name != "id"]

    # fine details of large shapes, a thousandth of a unit wide
    K = 4000
    huge = ((-K, -K), (K, -K), (K, K), (-K, K))
    fine = [(huge, (p,)) for p in p33]
    for k in range(2, ctx.pick(5, 6)):
        for path in itertools.permutations(grid, k):
            o = path + huge[1:] + ((-K, 2),)
            if simple(o) and area2(o) > 0:
                fine.append((o, ()))
    tri += [(o, hs, name) for o, hs in fine for name in ("milli",) + ctx.pick((), ("turnmilli",))]
    for i, (o, hs) in enumerate(fine):
        if hs or i % ctx.pick(9, 1) == 0:
            for back in (False, True):
                surf.append((o, hs, "milli", ("z5", "tilt")[i % 2], "poly2surface", i % len(o), back, "with"))
                surf.append((o, hs, "milli", "z5", "poly2surfaceXY", i % len(o), back, "with"))

    ways = ("with", "against", "slant")
    n = 0
    for p in p33 + ctx.pick([], p43):
        for start in range(len(p)):
            for back in (False, True):
                n += 1
                plane = list(PLANES)[n % 5]
                name = ("id", "small", "id", "turn", "turnfar", "flip", "far")[n % 7]
                surf.append((p, (), name, plane, "poly2surface", start, back, ways[n % 3]))
    for p in p33:
        for back in (False, True):
            for plane in ("xy", "z5", "down"):
                for way in ("with", "against"):
                    surf.append((p, (), "id", plane, "poly2surfaceXY", 0, back, way))
        for name in ("small", "turn"):
            surf.append((p, (), name, "z5", "poly2surfaceXY", 1, False, "with"))
            surf.append((box, (p,), name, "z5", "poly2surfaceXY", 1, False, "with"))
        for plane in PLANES:
            surf.append((box, (p,), "id", plane, "poly2surface", 0, False, "with"))
    for o, hs in placed:
        if len(hs) <= ctx.pick(2, 3):
            for func in ("poly2surface", "poly2surfaceXY"):
                for plane in ("z5", "tilt") if func == "poly2surface" else ("z5",):
                    for back in (False, True):
                        surf.append((o, hs, "turn" if back else "id", plane, func, len(hs), back, "slant" if back else "with"))
    ctx.explore(judge, [("tri", tri, 60), ("surf", surf, 20)])
    ctx.assumptions.append("corners lie on lattices of at most 4 by 4 points (holes: up to 4 shapes in a 3 by 3 grid), placed in the plane by 6 similarity or axis transforms and in space by 5 planes")
