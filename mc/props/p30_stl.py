"""P30: STL files carry exactly the mesh, and damaged ones are refused."""
import io
import itertools
import math
import os
import struct
import tempfile

from mc import mesh
from mc.core import Out, require

META = {
    "id": "P30",
    "title": "STL files carry exactly the mesh and read back as the same solid",
    "statement": "`write_stl` writes each face of a solid or surface once, binary or ASCII, to a path or stream, with its corners in order (to the precision of the format), its unit normal and any name, in a file that other programs can read, and a closed solid is watertight in the file. `read_stl` and `import_stl` give back exactly the facets of any well-formed STL file, whatever its layout, header, number format or normals, as a valid solid that is closed when the facets close. A file that was cut short or is no STL file is refused rather than read as part of the solid.",
    "over": ["inputs", "crash points"],
    "forall": "every builder in every placement, format, sink and name of the grids; every layout of ASCII and header of binary files of the grids; every length at which a file can be cut",
    "why": "A mesh loses faces, its watertightness or its tail only for particular sizes, placements, layouts and cuts; the suite writes and reads one box.",
    "files": ["src/yapcad/io/stl.py", "src/yapcad/mesh.py", "src/yapcad/geometry_utils.py"],
    "mech": [["writing", "io/stl.py:write_stl"], ["reading", "io/stl.py:read_stl"], ["the mesh that is exported", "mesh.py:mesh_view"]],
    "technique": "explicit enumeration of solids, file layouts and cut points against the real writer and reader, each file judged by an independent STL parser",
    "note": "faces that are degenerate within the tolerance of the library are left out; ASCII files have seven digits; a text that ends between facets is not told from a complete one",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def pt(*c):
    from yapcad.geom import point
    return point(*c)


def ring(*c):
    return [pt(*p) for p in c + c[:1]]


def flat(*loops):
    from yapcad.geom3d import poly2surfaceXY
    return poly2surfaceXY(ring(*loops[0]), [ring(*x) for x in loops[1:]])[0]


SQ = ((0, 0), (8, 0), (8, 8), (0, 8))
HOLE = ((3, 3), (5, 3), (5, 5), (3, 5))


def two(u, k):
    from yapcad.geom3d import solid, translatesolid
    return solid(u.prism(k, k, k)[1] + translatesolid(u.prism(k, 2 * k, k), pt(3 * k, 0, 0))[1])


def cavity(u, k):
    from yapcad.geom3d import reversesurface, solid
    return solid(u.prism(6 * k, 6 * k, 6 * k)[1] + [reversesurface(s) for s in u.prism(2 * k, 2 * k, 2 * k, pt(k, 0, 0))[1]])


SOLIDS = {
    "prism": lambda u, k: u.prism(k, 2 * k, 3 * k),
    "sphere": lambda u, k: u.sphere(2 * k, depth=1),
    "fine": lambda u, k: u.sphere(2 * k, depth=3),
    "oblate": lambda u, k: u.oblate_spheroid(2 * k, .3, depth=2),
    "dode": lambda u, k: u.dodecahedron(3 * k),
    "cone": lambda u, k: u.conic(2 * k, 0, k, angr=20),
    "frustum": lambda u, k: u.conic(2 * k, k, k, pt(k, 0, 0), angr=30),
    "tube": lambda u, k: u.tube(4 * k, k, 2 * k, minang=30),
    "ctube": lambda u, k: u.conic_tube(4 * k, 3 * k, .5 * k, 2 * k, minang=24),
    "shell": lambda u, k: u.spherical_shell(10 * k, k, minang=30),
    "cap": lambda u, k: u.spherical_shell(10 * k, k, 3., minang=30),
    "rev": lambda u, k: u.makeRevolutionSolid(lambda z: k + z * z / k / 2, 0, 2 * k, 4, arcSamples=9),
    "spindle": lambda u, k: u.makeRevolutionSolid(lambda z: k * math.sin(z / k), 0, math.pi * k, 4, arcSamples=7),
    "loft": lambda u, k: u.makeLoftSolid([pt(0, 0), pt(2 * k, 0), pt(k, 2 * k)], [pt(0, 0, 2 * k), pt(k, 0, 2 * k), pt(k, 2 * k, 2 * k)]),
    "plate": lambda u, k: u.extrude(flat(*[tuple((x * k, y * k) for x, y in r) for r in (SQ, HOLE)]), 2 * k),
    "two": two,
    "cavity": cavity,
}
SHEETS = {
    "sheet": lambda u, k: flat(tuple((x * k, y * k) for x, y in SQ), tuple((x * k, y * k) for x, y in HOLE)),
    "disc": lambda u, k: u.circleSurface(pt(0, 0), k, angr=30),
    "side": lambda u, k: u.prism(k, k, k)[1][3],
}
SIZES = (.002, .03, 1, 7.3, 250)


def moves():
    from yapcad import geom3d as g
    return {
        "stay": (lambda s: s, lambda s: s),
        "shift": (lambda s: g.translatesolid(s, pt(12.3, -4.56, .7)), lambda s: g.translatesurface(s, pt(12.3, -4.56, .7))),
        "turn": (lambda s: g.rotatesolid(s, 33., axis=pt(1, 2, 3)), lambda s: g.rotatesurface(s, 33., axis=pt(1, 2, 3))),
        "away": (lambda s: g.rotatesolid(g.translatesolid(s, pt(1234.5, 777.7, -5)), 77, axis=pt(0, 0, 1)),
                 lambda s: g.rotatesurface(g.translatesurface(s, pt(1234.5, 777.7, -5)), 77, axis=pt(0, 0, 1))),
        "mirror": (lambda s: g.mirrorsolid(s, "xz"), lambda s: g.mirrorsurface(s, "xz")),
    }


MOVES = ("stay", "shift", "turn", "away", "mirror")


TINY = ("prism", "sphere", "dode", "cone", "frustum", "plate", "two", "cavity", "sheet", "disc", "side")  # others have tolerances of their own


def build(name, k, move):
    from yapcad import geom3d_util as u
    if name in SOLIDS:
        return moves()[move][0](SOLIDS[name](u, k))
    return moves()[move][1](SHEETS[name](u, k))


def faces(obj):
    return mesh.tris(obj if obj[0] == "solid" else ["solid", [obj]])


def parse_binary(data):
    """-> header, [(normal, a, b, c)], rest"""
    n = struct.unpack("<I", data[80:84])[0]
    out = []
    for i in range(n):
        v = struct.unpack("<12fH", data[84 + 50 * i:134 + 50 * i])
        out.append((v[:3], v[3:6], v[6:9], v[9:12]))
        require(v[12] == 0, "attribute bytes %r" % (v[12],))
    return data[:80], out, data[84 + 50 * n:]


def parse_ascii(text):
    """-> name, [(normal, a, b, c)]; strict line grammar"""
    lines = text.split("\n")
    require(lines[-1] == "", "the last line does not end")
    lines = [x.strip() for x in lines[:-1]]
    require(lines[0].startswith("solid") and lines[-1].startswith("endsolid"), "first or last line %r %r" % (lines[0], lines[-1]))
    name = lines[0][6:]
    require(lines[-1][9:] == name, "ends with the name %r, starts with %r" % (lines[-1][9:], name))
    body = lines[1:-1]
    require(len(body) % 7 == 0, "%d lines of facets" % len(body))
    out = []
    for i in range(0, len(body), 7):
        f = [x.split() for x in body[i:i + 7]]
        require(f[0][:2] == ["facet", "normal"] and f[1] == ["outer", "loop"] and f[5] == ["endloop"] and f[6] == ["endfacet"]
                and all(x[0] == "vertex" and len(x) == 4 for x in f[2:5]) and len(f[0]) == 5, "facet %r" % (f,))
        out.append((tuple(map(float, f[0][2:])),) + tuple(tuple(map(float, x[1:])) for x in f[2:5]))
    return name, out


def near(got, want, binary):
    return all(abs(a - b) <= (6.1e-8 if binary else 6e-7) * abs(b) + 1e-9 for a, b in zip(got, want))


def closed(T):
    n = {}
    for t in T:
        for i in range(3):
            e = (t[i - 1], t[i])
            n[e] = n.get(e, 0) + 1
    return all(n.get((b, a), 0) == k for (a, b), k in n.items())


NAMES = ("yapCAD", "", "solid part", "facet normal", "n" * 90, "Geh\u00e4use", "two\nlines", "endsolid", "tab\there")


def judge_write(case):
    name, k, move, binary, sink, label, dedup = case
    from yapcad import geom3d
    from yapcad.io.stl import import_stl, read_stl, write_stl
    obj = build(name, k, move)
    keep = repr(obj)
    want = faces(obj)
    kw = {"binary": bool(binary)}
    if label != "yapCAD":
        kw["name"] = label
    with tempfile.TemporaryDirectory(prefix="p30") as t:
        path = os.path.join(t, "a.stl")
        if sink == "stream":
            s = io.BytesIO() if binary else io.StringIO()
            write_stl(obj, s, **kw)
            data = s.getvalue() if binary else s.getvalue().encode("ascii")
            with open(path, "wb") as f:
                f.write(data)
        else:
            if sink == "over":
                with open(path, "wb") as f:
                    f.write(b"x" * 100000)
            write_stl(obj, path, **kw)
            with open(path, "rb") as f:
                data = f.read()
        require(repr(obj) == keep, "writing changes the object")
        if binary:
            head, got, rest = parse_binary(data)
            require(not rest, "%d bytes after the last facet" % len(rest))
            plain = label.encode("ascii", "replace")[:80]
            require(head.rstrip() == plain.rstrip(), "header %r for the name %r" % (head, label))
        else:
            said, got = parse_ascii(data.decode("ascii"))
            require(said == label.encode("ascii", "replace").decode().replace("\n", " ").strip(), "name %r for %r" % (said, label))
        require(len(got) == len(want), "%d facets written for %d faces" % (len(got), len(want)))
        for g, w in zip(got, want):
            require(all(near(a, b, binary) for a, b in zip(g[1:], w)), "facet %r written for the face %r" % (g[1:], w))
            n = mesh.nrm(w)
            m = math.sqrt(mesh.dot(n, n))
            require(max(abs(a - b / m) for a, b in zip(g[0], n)) < 2e-6, "normal %r written for %r" % (g[0], [c / m for c in n]))
        if name in SOLIDS:
            require(closed([g[1:] for g in got]), "the solid is not watertight in the file")

        # and back
        if sink == "stream":
            back = read_stl(io.BytesIO(data) if binary or k == 1 else io.StringIO(data.decode()), deduplicate=dedup)
        else:
            back = (import_stl if sink == "over" else read_stl)(path, deduplicate=dedup)
        same(back, [g[1:] for g in got], dedup, [g[0] for g in got])
        if name in SOLIDS and k >= 1 and move != "away":
            require(geom3d.issolidclosed(back), "the solid read back is not closed")
            v0, v1 = geom3d.volumeof(build(name, k, "stay")), geom3d.volumeof(back)
            require(abs(v0 - v1) < 1e-4 * v0, "volume %r read back as %r" % (v0, v1))
    return Out("write %s %s" % ("binary" if binary else "ascii", sink), steps=len(got))


def same(sol, want, dedup, normals=None):
    """the solid read has exactly the facets"""
    from yapcad import geom3d
    require(geom3d.issolid(sol, fast=False), "no valid solid")
    if not want:
        require(not mesh.tris(sol), "faces out of nothing")
        return
    require(len(sol[1]) == 1, "%d surfaces" % len(sol[1]))
    s = sol[1][0]
    require(geom3d.issurface(s, fast=False), "no valid surface")
    got = mesh.tris(sol)
    require(len(got) == len(want), "%d faces read from %d facets" % (len(got), len(want)))
    for g, w in zip(got, want):
        require(max(abs(a - b) for p, q in zip(g, w) for a, b in zip(p, q)) <= 1e-9, "face %r read for %r" % (g, w))
    if dedup:
        spots = {tuple(p) for t in want for p in t}
        require(len(s[1]) <= len(spots), "%d vertices for %d places" % (len(s[1]), len(spots)))
    else:
        require(len(s[1]) == 3 * len(want), "%d vertices without merging" % len(s[1]))
    # the normals of a corner are between those of its faces
    for f, w in zip(s[3], want):
        n = mesh.nrm(w)
        m = math.sqrt(mesh.dot(n, n))
        if m < 1e-9:
            continue
        for i in f:
            v = s[2][i][:3]
            require(all(c == c for c in v), "normal %r" % (v,))
            if not dedup:
                require(mesh.dot(v, n) > .99 * m, "normal %r of a face towards %r" % (v, n))
                continue
            # that of a merged corner is the mean of those of the facets around it
            around = [unit(t) for t in want if w[f.index(i)] in t and any(mesh.nrm(t))]
            mean = [sum(c) for c in zip(*around)]
            k = math.sqrt(mesh.dot(mean, mean))
            require(k < 1e-3 or mesh.dot(v, mean) > .9999 * k, "normal %r of a corner of faces towards %r" % (v, around))


# ---------------------------------------------------------------- reading
TET = [((0, 0, 0), (0, 2, 0), (1, 0, 0)), ((0, 0, 0), (1, 0, 0), (0, 0, 3)), ((0, 0, 0), (0, 0, 3), (0, 2, 0)), ((1, 0, 0), (0, 2, 0), (0, 0, 3))]
f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
ODD = [tuple(tuple(f32(.1234567 + .7 * math.sin(5 * x + i)) for i, x in enumerate(q)) for q in ((p[0] + .3, p[1] + .7, p[2] + .1) for p in t)) for t in TET]
turn = lambda T, f: [tuple(f(p) for p in t) for t in T]
FLAT = [((0, 0, 0), (0, 2, 0), (1, 0, 0)), ((1, 0, 0), (0, 2, 0), (1, 2, 0)), ((1, 0, 0), (1, 2, 0), (5, 1, 0)), ((0, 0, 0), (1, 0, 0), (0, -3, 0))]
SETS = {"tet": TET, "odd": ODD, "down": FLAT, "up": [t[::-1] for t in FLAT], "left": turn(FLAT, lambda p: (p[2], p[0], p[1])), "back": turn(FLAT, lambda p: (p[1], p[2], p[0]))}
NUM = {
    "int": lambda x: "%d" % x, "point": lambda x: "%.1f" % x, "exp": lambda x: "%e" % x, "Exp": lambda x: "%.3E" % x,
    "plus": lambda x: "%+g" % x, "bare": lambda x: ("%d." % x), "dot": lambda x: ".%de1" % x,
}
HEADS = ("solid", "solid part", "solid  ", "  solid x", "SOLID x", "\ufeffsolid x", "solid facet normal", "solid " + "long " * 30, "solid caf\u00e9")
ENDS = ("endsolid", "endsolid part", "ENDSOLID", "endsolid\n\n\n")


def unit(t):
    n = mesh.nrm(t)
    m = math.sqrt(mesh.dot(n, n))
    return tuple(c / m for c in n)


def judge_text(case):
    """layouts of a text file: header, end, number format, line end, indent, normals, upper case, how many facets"""
    head, end, num, eol, indent, normals, upper, count, which = case if len(case) == 9 else case + ("tet",)
    data = SETS[which][:count]
    from yapcad.io.stl import read_stl
    lines = [head]
    for i, t in enumerate(data):
        n = {"right": unit(t), "zero": (0, 0, 0), "nan": (float("nan"),) * 3, "long": tuple(7 * c for c in unit(t))}[normals]
        f = ["facet normal " + " ".join("%r" % float(c) for c in n), indent + "outer loop"]
        f += [indent * 2 + "vertex " + " ".join(NUM[num](c) for c in p) for p in t]
        f += [indent + "endloop", "endfacet"]
        lines += [x.upper() for x in f] if upper else f
    lines.append(end)
    text = eol.join(lines) + eol
    for src in (io.BytesIO(text.encode("utf-8")), io.StringIO(text)):
        for dedup in (True, False):
            src.seek(0)
            same(read_stl(src, deduplicate=dedup), data, dedup)
    return Out("text %s normals" % normals, steps=4)


def pack(head, tris, normals="right", attr=0, tail=b""):
    out = head.ljust(80, b" ")[:80] + struct.pack("<I", len(tris))
    for t in tris:
        n = {"right": unit(t), "zero": (0, 0, 0), "nan": (float("nan"),) * 3, "long": tuple(7 * c for c in unit(t))}[normals]
        out += struct.pack("<12fH", *n, *t[0], *t[1], *t[2], attr)
    return out + tail


def judge_bin(case):
    head, count, normals, attr, tail, which = case if len(case) == 6 else case + ("tet",)
    tris = SETS[which][:count]
    from yapcad.io.stl import read_stl
    data = pack(head.encode("latin-1"), tris, normals, attr, b"\0" * tail)
    for dedup in (True, False):
        same(read_stl(io.BytesIO(data), deduplicate=dedup), tris, dedup)
    return Out("binary %s normals" % normals, steps=2)


def judge_cut(case):
    """a file cut after so many bytes"""
    what, count, length = case
    from yapcad.io.stl import read_stl
    tris = TET[:count]
    if what == "ascii":
        lines = ["solid part"]
        for t in tris:
            lines += ["  facet normal %e %e %e" % unit(t), "    outer loop"] + ["      vertex %e %e %e" % p for p in t] + ["    endloop", "  endfacet"]
        data = ("\n".join(lines) + "\nendsolid part\n").encode()
    else:
        data = pack(what.encode(), tris)
    if length > len(data):
        return None
    cut = data[:length]
    if what == "ascii":
        whole = cut.decode().count("endfacet")
        may = not cut.decode().replace("endfacet", "").split("facet")[-1].strip() if whole else False
        mid = cut.decode().rsplit("endfacet", 1)[-1] if whole else cut.decode()[len("solid part"):]
        started = "facet normal" in mid or "vertex" in mid
    try:
        got = mesh.tris(read_stl(io.BytesIO(cut)))
    except ValueError:
        done = len(data)
        if what == "ascii":
            done -= len(" part\n") if not count else len("endsolid part\n")
        require(length < done, "a complete file is refused")
        return Out("cut %s refused" % what)
    if what != "ascii":
        require(length == len(data), "%d of %d bytes are read as %d of %d facets" % (length, len(data), len(got), count))
        require(len(got) == count, "%d facets read" % len(got))
    else:
        require(not started, "a facet that is cut is passed over: %r" % mid)
        require(len(got) == whole, "%d facets read of the %d that are whole" % (len(got), whole))
        require(whole or length == len(data) or "endsolid" in cut.decode(), "%r is read as an STL file" % cut)
    return Out("cut %s read" % what)


JUNK = ["", "   ", "\n", "hello", "solid", "solid x", "endsolid", "endsolid x", "facet normal 0 0 1", "vertex 0 0 0", "ISO-10303-21;\nHEADER;\nENDSEC;\n",
        "{\"a\": 1}", "PK\3\4", "solid x\nfacet normal 0 0 1\nendsolid x", "solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nendloop\nendfacet\nendsolid x",
        "solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 zero\nvertex 0 1 0\nendloop\nendfacet\nendsolid x", "\0" * 83, "\xff" * 90, "x" * 84 + "\1"]


def judge_junk(case):
    i, as_text = case
    from yapcad.io.stl import read_stl
    text = JUNK[i]
    if as_text and any(ord(c) > 126 for c in text):
        return None
    try:
        got = read_stl(io.StringIO(text) if as_text else io.BytesIO(text.encode("latin-1")))
    except ValueError:
        return Out("junk refused")
    require(False, "%r is read as %r" % (text[:60], got))


def run(ctx):
    W = []
    for name in list(SOLIDS) + list(SHEETS):
        for k in SIZES:
            for i, move in enumerate(MOVES):
                if k < .03 and name not in TINY or move == "away" and k < 1:
                    continue
                for binary in (1, 0):
                    if not binary and move == "shift" and k < .03:
                        continue
                    for sink in ("path", "stream", "over") if k == 1 else ("path",):
                        for dedup in (True, False):
                            W.append((name, k, move, binary, sink, "yapCAD", dedup))
    W += [(n, 1, "stay", b, s, label, True) for n in ("prism", "sheet") for b in (1, 0) for s in ("path", "stream") for label in NAMES]
    text = list(itertools.product(HEADS, ENDS[:2], NUM, ("\n", "\r\n"), ("", "  ", "\t"), ("right", "zero", "nan", "long"), (0, 1), (0, 1, 4)))
    text += list(itertools.product(HEADS[:4], ENDS, ("int", "exp"), ("\n", "\r\n", "\r", " "), ("", "    "), ("right", "zero"), (0, 1), (0, 1, 3)))
    bins = list(itertools.product(("", "yapCAD", "solid", "solid x", "  solid", "SOLID", "facet normal vertex", "\xe9\xff", "\0" * 80, "s" * 90), range(5), ("right", "zero", "nan", "long"), (0, 1, 65535), (0,)))
    bins += list(itertools.product(("", "solid", "solid x", "Solid facet", "SOLID" + 70 * "x"), range(1, 5), ("right", "zero", "long"), (0, 1, 0x6363), (0,), tuple(SETS)))
    text += list(itertools.product(("solid a",), ENDS[:1], ("point", "exp"), ("\n",), ("  ",), ("right", "zero", "long"), (0,), (1, 2, 3, 4), ("down", "up", "left", "back")))
    bins += [("yapCAD", n, "right", 0, t) for n in range(5) for t in (1, 2, 49, 50)]
    cuts = [(w, n, k) for w in ("binary", "solid", "ascii") for n in (0, 1, 2, 4) for k in range(ctx.pick(1, 0), 1200)]
    ctx.explore(judge, [("write", W, 4), ("text", text, 200), ("bin", bins, 60), ("cut", cuts, 200),
                        ("junk", list(itertools.product(range(len(JUNK)), (0, 1))), 20)])
