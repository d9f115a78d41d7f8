"""P38: 3D text is laid out, filled and placed as stated."""
import io
import itertools
import math
import os
from contextlib import redirect_stdout

from mc import mesh
from mc.core import Out, h, require as _require

META = {
    "id": "P38",
    "title": "3D text has its characters, counters, size and place as stated",
    "statement": "`text_to_polygons` and `text_solid` draw each character of a text at its place in the line, in the block font or with a TrueType outline whose counters are holes and whose islands in counters are solid, `height` high and `depth` thick, and `text_width` is the width of that line. Fitted text stays within its width down to the minimum height, and text on a surface is upright and readable from outside, centred on the given point, with its back on the surface (plus the margin) and its front `depth` further out. Engraving removes from the solid exactly the text that starts at the given position and reaches `depth` into the face.",
    "over": ["inputs"],
    "forall": "every supported and unsupported character, every text of the alphabets to length 2 (3), every nesting of contours to 5 (6) in every order and orientation, every size, spacing, normal, up direction and margin of the grids",
    "why": "Text goes wrong only for particular characters (islands in counters), orientations (faces looking down) and widths; the suite asks whether some polygons come out.",
    "files": ["src/yapcad/text3d.py"],
    "mech": [["block layout", "text3d.py:_text_to_polygons_block"], ["contour nesting", "text3d.py:glyph_to_grouped_contours"], ["solid", "text3d.py:text_solid"], ["width and fit", "text3d.py:text_width"], ["placing", "text3d.py:text_on_surface"], ["engraving", "text3d.py:engrave_text"]],
    "technique": "explicit enumeration of texts, contour nestings and placements against the real functions, judged by pictures of the block font, by the outlines as the font library gives them and by an independent placement",
    "note": "TrueType cases use the DejaVu fonts where they are installed, with curves as the polygon of their control points, as the library has it; the boolean of an engraving is recorded, not computed",
}

PICTURES = {
    ' ': '..... ..... ..... ..... ..... ..... .....',
    '(': '..... ...#. ..#.. ..#.. ..#.. ...#. .....',
    ')': '..... .#... ..#.. ..#.. ..#.. .#... .....',
    '-': '..... ..... ..... .###. ..... ..... .....',
    '.': '..... ..... ..... ..... ..... ..... ..#..',
    '/': '....# ....# ...#. ..#.. .#... #.... #....',
    '0': '.###. #...# #...# #.#.# #...# #...# .###.',
    '1': '..#.. .##.. ..#.. ..#.. ..#.. ..#.. .###.',
    '2': '.###. #...# ....# ..##. .#... #.... #####',
    '3': '####. ....# ....# .###. ....# ....# ####.',
    '4': '#...# #...# #...# ##### ....# ....# ....#',
    '5': '##### #.... #.... ####. ....# ....# ####.',
    '6': '.#### #.... #.... ####. #...# #...# .###.',
    '7': '##### ....# ....# ....# ..##. ..##. ..##.',
    '8': '.###. #...# #...# .###. #...# #...# .###.',
    '9': '.###. #...# #...# .#### ....# ....# ####.',
    ':': '..... ..... ..#.. ..... ..... ..#.. .....',
    'A': '.###. #...# #...# ##### #...# #...# #...#',
    'B': '####. #...# #...# ####. #...# #...# ####.',
    'C': '.#### #.... #.... #.... #.... #.... .####',
    'D': '####. #...# #...# #...# #...# #...# ####.',
    'E': '##### #.... #.... ####. #.... #.... #####',
    'F': '##### #.... #.... ####. #.... #.... #....',
    'G': '.#### #.... #.... #.### #...# #...# .####',
    'H': '#...# #...# #...# ##### #...# #...# #...#',
    'I': '##### ..#.. ..#.. ..#.. ..#.. ..#.. #####',
    'J': '##### ...#. ...#. ...#. #..#. #..#. ###..',
    'K': '#...# #..#. #.#.. ##... #.#.. #..#. #...#',
    'L': '#.... #.... #.... #.... #.... #.... #####',
    'M': '#...# ##.## #.#.# #...# #...# #...# #...#',
    'N': '#...# ##..# #.#.# #..## #...# #...# #...#',
    'O': '.###. #...# #...# #...# #...# #...# .###.',
    'P': '####. #...# #...# ####. #.... #.... #....',
    'Q': '.###. #...# #...# #...# #...# #..#. .####',
    'R': '####. #...# #...# ####. #.#.. #..#. #...#',
    'S': '.#### #.... #.... .###. ....# ....# ####.',
    'T': '##### ..#.. ..#.. ..#.. ..#.. ..#.. ..#..',
    'U': '#...# #...# #...# #...# #...# #...# .###.',
    'V': '#...# #...# #...# #...# .#.#. .#.#. ..#..',
    'W': '#...# #...# #...# #...# #.#.# ##.## #...#',
    'X': '#...# #...# .#.#. ..#.. .#.#. #...# #...#',
    'Y': '#...# #...# .#.#. ..#.. ..#.. ..#.. ..#..',
    'Z': '##### ...#. ..#.. ..#.. .#... #.... #####',
    '_': '..... ..... ..... ..... ..... ..... #####',
}
UNKNOWN = "..... .###. .###. .###. .###. .###. ....."
FONTS = ["/usr/share/fonts/truetype/dejavu/DejaVu%s.ttf" % n for n in ("Sans", "SansMono", "Serif-Bold", "Sans-Bold", "SansMono-Bold", "SansMono-BoldOblique", "SansMono-Oblique", "Serif")]


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def lit(c, i, j):
    """Whether pixel (i, j), from the bottom left, of the character is set."""
    return 0 <= i < 5 and 0 <= j < 7 and PICTURES.get(c, UNKNOWN).split()[6 - j][i] == "#"


def samples(text, height, spacing):
    """(x, y, set?) near the corners and in the centre of every pixel of the line."""
    s = height / 7
    for k, c in enumerate(text.upper()):
        for i in range(-1, 6):
            if i in (-1, 5) and spacing < 1:
                continue
            for j in range(-1, 8):
                for a, b in ((0.531, 0.417), (0.0213, 0.0317), (0.9731, 0.9817)):
                    yield (k * (5 + spacing) + i + a) * s, (j + b) * s, lit(c, i, j)


def inside(x, y, loop):
    n, w = len(loop), 0
    for i in range(n):
        (x0, y0), (x1, y1) = loop[i - 1][:2], loop[i][:2]
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) * (x1 - x0) / (y1 - y0):
            w += 1 if y1 > y0 else -1
    return w


def triangles(sol):
    return mesh.tris(sol)


def in_tri(x, y, t):
    d = [(t[i][0] - x) * (t[(i + 1) % 3][1] - y) - (t[(i + 1) % 3][0] - x) * (t[i][1] - y) for i in range(3)]
    return 1 if min(d) > 0 else -1 if max(d) < 0 else 0


def bounds(T):
    return [(min(p[i] for t in T for p in t), max(p[i] for t in T for p in t)) for i in range(3)]


def closed(T, what):
    r = mesh.check(T)
    require(not r["open"] and not r["deg"], "{} is not closed: {}", what, {k: r[k] for k in ("open", "deg")})


def judge_block(case):
    text, height, spacing, depth, center = case
    from yapcad import text3d
    from yapcad.geom import point
    from yapcad.geom3d import issolid
    polys = text3d.text_to_polygons(text, height=height, spacing=spacing, font="block")
    loops = [[(p[0], p[1]) for p in q] for q in polys]
    require(all(len(q) > 3 and q[0] == q[-1] for q in loops), "the polygons of {!r} are not closed", text)
    for x, y, want in samples(text, height, spacing):
        got = any(inside(x, y, q[:-1]) for q in loops)
        require(got == want, "{!r} (height {}, spacing {}) has ({:.3f}, {:.3f}) {}", text, height, spacing, x, y, "filled" if got else "empty")
    n = len(text.upper())
    want = (n * 5 + (n - 1) * spacing) * height / 7 if n else 0.0
    got = text3d.text_width(text, height=height, spacing=spacing, font="block")
    require(abs(got - want) <= 1e-9 * max(1, want), "the width of {!r} is {}, the line is {} wide", text, got, want)
    kw = {} if center is None else {"center": point(*center)}
    sol = text3d.text_solid(text, height=height, depth=depth, spacing=spacing, font="block", **kw)
    require(issolid(sol), "text_solid({!r}) is no solid", text)
    T = triangles(sol)
    if not loops:
        require(not T, "text_solid({!r}) is not empty", text)
        return Out("block", [h(case)], 1)
    xs, ys = [x for q in loops for x, y in q], [y for q in loops for x, y in q]
    want = [(min(xs), max(xs)), (min(ys), max(ys)), (0.0, depth)]
    shift = [0.0] * 3 if center is None else [c - (a + b) / 2 for c, (a, b) in zip(center, want)]
    got = bounds(T)
    require(all(abs(a - b - s) < 1e-6 for u, v, s in zip(got, want, shift) for a, b in zip(u, v)),
            "text_solid({!r}, {}, {}, center {}) is at {}, not {} moved by {}", text, height, depth, center, got, want, shift)
    for s in sol[1]:
        require(len(s[1]) == len(s[2]), "a surface of the text has {} points and {} normals", len(s[1]), len(s[2]))
    closed(T, "text_solid(%r)" % text)
    caps = [t for t in T if abs(mesh.nrm(t)[2]) > 1e-12]
    top = [t for t in caps if mesh.nrm(t)[2] > 0]
    require(all(abs(p[2] - shift[2] - (depth if t in top else 0)) < 1e-6 for t in caps for p in t), "a cap of text_solid({!r}) is not at its depth", text)
    for x, y, want in samples(text, height, spacing):
        got = {sg: any(in_tri(x + shift[0], y + shift[1], t) for t in caps if (mesh.nrm(t)[2] > 0) == sg) for sg in (True, False)}
        require(got == {True: want, False: want}, "text_solid({!r}) has ({:.3f}, {:.3f}) {} on top and bottom", text, x, y, got)
    return Out("block", [h(case)], 3)


# ---- contour nesting -------------------------------------------------------

class Fake:
    """A glyph as freetype shows it."""
    def __init__(self, loops):
        self.outline = self
        self.points, self.contours = [], []
        for loop in loops:
            self.points += [(int(x * 64), int(y * 64)) for x, y in loop]
            self.contours.append(len(self.points) - 1)


def forests(n):
    """Parent tuples of every forest of n contours: parent[i] < i or None."""
    return itertools.product(*[[None] + list(range(i)) for i in range(n)])


def rings(parents, shape):
    """Contours nested as the parents say: children side by side in their parent."""
    kids = {p: [i for i, q in enumerate(parents) if q == p] for p in (None,) + tuple(range(len(parents)))}
    out = {}

    def fill(p, x0, y0, x1, y1):
        n = len(kids[p])
        for k, i in enumerate(kids[p]):
            w = (x1 - x0) / n
            a, b, c, d = x0 + k * w + w * 0.08, y0 + (y1 - y0) * 0.08, x0 + (k + 1) * w - w * 0.08, y1 - (y1 - y0) * 0.08
            m, q = (a + c) / 2, (b + d) / 2
            if shape == "box":
                out[i] = [(a, b), (c, b), (c, d), (a, d)]
                fill(i, a, b, c, d)
            elif shape == "horn":              # a spike first, so that its first corners are no measure of the rest
                out[i] = [(a, d), (a + (c - a) * 0.02, b + (d - b) * 0.5), (a + (c - a) * 0.1, b), (c, b), (c, d * 0.9 + b * 0.1), (a + (c - a) * 0.2, d * 0.9 + b * 0.1)]
                fill(i, a + (c - a) * 0.2, b, c, d * 0.9 + b * 0.1)
            else:
                out[i] = [(m, b), (c, q), (m, d), (a, q)]
                fill(i, (a + m) / 2, (b + q) / 2, (m + c) / 2, (q + d) / 2)
    fill(None, 0.0, 0.0, 4096.0, 4096.0)
    return [out[i] for i in range(len(parents))]


def canon(loop):
    pts = [(round(p[0], 6), round(p[1], 6)) for p in loop]
    pts = pts[:-1] if pts[0] == pts[-1] else pts
    return tuple(sorted(pts))


def judge_nest(case):
    parents, order, shape, flip, off, scale = case
    from yapcad import text3d
    loops = rings(parents, shape)
    drawn = [[(int(x * 64) / 64, int(y * 64) / 64) for x, y in q] for q in loops]
    given = [drawn[i][::-1] if (flip >> i) & 1 else drawn[i] for i in order]
    was = text3d.FREETYPE_AVAILABLE
    text3d.FREETYPE_AVAILABLE = True
    try:
        got = text3d.glyph_to_grouped_contours(Fake(given), off, scale)
    finally:
        text3d.FREETYPE_AVAILABLE = was
    level = []
    for p in parents:
        level.append(0 if p is None else level[p] + 1)

    def at(q):
        return canon([(x * scale + off, y * scale) for x, y in q])
    want = {at(drawn[i]): sorted(at(drawn[j]) for j, p in enumerate(parents) if p == i) for i in range(len(parents)) if level[i] % 2 == 0}
    have = {}
    for g in got:
        k = canon(g["outer"])
        require(k not in have, "a contour is an outline twice")
        require(all(q[0][:2] == q[-1][:2] for q in [g["outer"]] + g["holes"]), "a contour is not closed")
        have[k] = sorted(canon(x) for x in g["holes"])
    require(have == want, "contours nested as {} (in order {}) give {} outlines with {} holes, not {} with {}", parents, order,
            len(have), sorted(map(len, have.values())), len(want), sorted(map(len, want.values())))
    return Out("nest %d" % max(level), [h((parents, order, shape, flip))], 1)


# ---- TrueType --------------------------------------------------------------

def outline(path, text, height, spacing):
    """(loops, advance width) of the line as the font library gives it."""
    import freetype
    face = freetype.Face(path)
    face.set_char_size(100 * 64)
    face.load_char("H", freetype.FT_LOAD_DEFAULT | freetype.FT_LOAD_NO_BITMAP)
    b = face.glyph.outline.get_bbox()
    s = height / (b.yMax - b.yMin)
    x0, loops = 0.0, []
    for c in text:
        face.load_char(c, freetype.FT_LOAD_DEFAULT | freetype.FT_LOAD_NO_BITMAP)
        o, st = face.glyph.outline, 0
        for e in o.contours:
            pts = [(x * s + x0, y * s) for x, y in o.points[st:e + 1]]
            st = e + 1
            if len(pts) > 2:
                loops.append(pts)
        x0 += face.glyph.advance.x * s + spacing
    return loops, max(0.0, x0 - spacing)


def have_font(path):
    try:
        import freetype                                    # noqa: F401
    except ImportError:
        return False
    return os.path.exists(path)


def loop_area(q):
    return sum(q[i - 1][0] * q[i][1] - q[i][0] * q[i - 1][1] for i in range(len(q))) / 2


def judge_ttf(case):
    font, text, height, spacing, depth = case
    path = FONTS[font]
    if not have_font(path):
        return None
    from yapcad import text3d
    loops, width = outline(path, text, height, spacing)
    got = text3d.text_width(text, height=height, spacing=spacing, font=path)
    require(abs(got - width) <= 1e-9 * max(1, width), "the width of {!r} is {}, its characters advance by {}", text, got, width)
    polys = text3d.text_to_polygons(text, height=height, spacing=spacing, font=path)

    def corners(q):
        return sorted((round(p[0], 6) + 0.0, round(p[1], 6) + 0.0) for p in (q[:-1] if tuple(q[0][:2]) == tuple(q[-1][:2]) and len(q) > 1 else q))
    require(len(polys) == len(loops), "{!r} has {} contours, its outlines {}", text, len(polys), len(loops))
    for p, q in zip(polys, loops):
        a, b = corners(p), corners(q)
        require(len(a) == len(b) and all(abs(u - v) < 2e-6 for s, t in zip(a, b) for u, v in zip(s, t)), "a contour of {!r} is not where its font has it", text)
    sol = text3d.text_solid(text, height=height, depth=depth, spacing=spacing, font=path)
    T = triangles(sol)
    area = abs(sum(map(loop_area, loops)))
    if not loops:
        require(not T, "text_solid({!r}) is not empty", text)
        return Out("ttf", [h(case)], 2)
    vol = mesh.vol(T)
    require(abs(vol - area * depth) <= 1e-6 * max(1, area * depth), "text_solid({!r}) in {} has volume {:.4f}, its outlines enclose {:.4f}", text, os.path.basename(path), vol, area * depth)
    got = bounds(T)
    want = [(min(p[i] for q in loops for p in q), max(p[i] for q in loops for p in q)) for i in (0, 1)] + [(0, depth)]
    require(all(abs(a - b) < 1e-6 for u, v in zip(got, want) for a, b in zip(u, v)), "text_solid({!r}) spans {}, its outlines {}", text, got, want)
    return Out("ttf", [h(case)], 3)


# ---- fit -------------------------------------------------------------------

def judge_fit(case):
    text, width, spacing, low, font = case
    path = "block" if font is None else FONTS[font]
    if font is not None and not have_font(path):
        return None
    from yapcad import text3d
    kw = {} if low is None else {"min_height": low}
    sol, height = text3d.text_solid_fitted(text, width, 1.5, spacing=spacing, font=path, **kw)
    low = 3.0 if low is None else low
    T = triangles(sol)
    if not text:
        require(not T and height == low, "the fitted empty text is {} high", height)
        return Out("fit empty", [h(case)], 1)
    require(height >= low - 1e-12, "the text is {} high, below the minimum {}", height, low)
    ref = text3d.text_solid(text, height=height, depth=1.5, spacing=spacing, font=path)
    require(triangles(ref) == T, "the fitted {!r} is not the text of height {}", text, height)
    got = text3d.text_width(text, height=height, spacing=spacing, font=path)
    if height > low + 1e-12:
        require(got <= width * (1 + 1e-9), "{!r} fitted into {} is {} wide", text, width, got)
        if font is None:
            require(got >= min(0.9 * width, 1.5 * 5 / 7 * width / len(text) - 1e-9), "{!r} fitted into {} is only {} wide", text, width, got)
            if T:
                b = bounds(T)[0]
                require(b[1] - b[0] <= width * (1 + 1e-9), "the solid of {!r} fitted into {} is {} wide", text, width, b[1] - b[0])
    elif font is None:
        # at the minimum only because less would be needed, or because it fits anyhow
        n = len(text.upper())
        best = width / ((n * 5 + (n - 1) * spacing) / 7)
        require(best * 0.9 <= low + 1e-9 or 1.5 * width / len(text) <= low + 1e-9, "{!r} could be {} high in {}, but is {}", text, best, width, height)
    fits, w, msg = text3d.validate_text_fit(text, height, width, spacing, path)
    require(abs(w - got) < 1e-12 and fits == (got <= width), "validate_text_fit({!r}, {}, {}) is {} for {}", text, height, width, fits, got)
    require(("TOO WIDE" in msg) != fits, "validate_text_fit says {!r} when it is {}", msg, fits)
    if font is None:
        hh = text3d.calculate_text_height_for_width(text, width, spacing, path)
        got = text3d.text_width(text, hh, spacing, path)
        require(abs(got - width) <= 1e-9 * width, "text of the height calculated for {} is {} wide", width, got)
    return Out("fit", [h(case)], 3)


# ---- placing ---------------------------------------------------------------

def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def unit(a):
    m = math.sqrt(sum(x * x for x in a))
    return tuple(x / m for x in a)


def judge_place(case):
    text, center, normal, up, width, depth, margin, dsl, font = case
    path = "block" if font is None else FONTS[font]
    if font is not None and not have_font(path):
        return None
    from yapcad import text3d
    from yapcad.geom import point
    side = cross(up, normal)
    if max(map(abs, side)) < 1e-9 or not any(normal):
        try:
            text3d.text_on_surface(text, center, normal, up, width, depth, font=path)
        except ValueError:
            return Out("refused", [h(case)], 1)
        require(False, "normal {} and up {} give a text", normal, up)
    kw = {} if margin is None else {"margin": margin}
    if dsl:
        from yapcad.dsl.runtime.builtins import call_builtin
        from yapcad.dsl.runtime.values import float_val, point_val, string_val
        args = [string_val(text)] + [point_val(point(*v)) for v in (center, normal, up)] + [float_val(x) for x in (width, depth, margin or 0.0)] + [string_val(path)]
        sol = call_builtin("text_on_surface", args).data
    else:
        sol = text3d.text_on_surface(text, center, normal, up, width, depth, font=path, **kw)
    T = triangles(sol)
    plain = text3d.text_solid_fitted(text, width, depth, font=path)[0]
    base = triangles(plain)
    require(len(T) == len(base), "text on a surface has {} faces, the text {}", len(T), len(base))
    if not T:
        return Out("placed empty", [h(case)], 1)
    n = unit(normal)
    r = unit(side)
    u = cross(n, r)
    B = bounds(base)
    xc, yc = sum(B[0]) / 2, sum(B[1]) / 2
    for t, b in zip(T, base):
        for p, q in zip(t, b):
            want = tuple(c + (margin or 0.0) * k + (q[0] - xc) * i + (q[1] - yc) * j + q[2] * k for c, i, j, k in zip(center, r, u, n))
            require(max(abs(x - y) for x, y in zip(p, want)) < 1e-6 * max(1.0, width), "text at {} facing {} up {} (margin {}, depth {}) has a corner at {}, not {}",
                    center, normal, up, margin, depth, p, tuple(round(x, 4) for x in want))
    check_normals(sol, plain, (r, u, n), "text on a surface")
    return Out("placed", [h(case)], 2)


def check_normals(sol, base, axes, what):
    """The normals turned with the text."""
    require(len(sol[1]) == len(base[1]), "{} has {} surfaces", what, len(sol[1]))
    for s, b in zip(sol[1], base[1]):
        require(len(s[2]) == len(b[2]), "{}: {} normals", what, len(s[2]))
        for p, q in zip(s[2], b[2]):
            want = [sum(q[k] * axes[k][i] for k in range(3)) for i in range(3)]
            require(math.dist(p[:3], want) < 1e-6, "{} has the normal {}, not {}", what, tuple(p[:3]), tuple(want))


def judge_engrave(case):
    text, position, normal, height, depth, spacing, dsl = case
    from yapcad import geom3d, text3d
    from yapcad.geom import point, vect
    from yapcad.geom3d_util import prism
    target = prism(20, 20, 20)
    keep = repr(target)
    calls = []

    def record(a, b, op, *rest, **kw):
        calls.append((a, b, op))
        return ["result"]
    saved = geom3d.solid_boolean, getattr(text3d, "solid_boolean", None)
    geom3d.solid_boolean = record
    if saved[1]:
        text3d.solid_boolean = record
    try:
        with redirect_stdout(io.StringIO()):
            if dsl:
                from yapcad.dsl.runtime.builtins import call_builtin
                from yapcad.dsl.runtime import values as v
                out = call_builtin("engrave_text", [v.solid_val(target), v.string_val(text), v.vector_val(point(*position)), v.vector_val(vect(*normal, 0)),
                                                    v.float_val(height), v.float_val(depth), v.float_val(spacing)]).data
            else:
                out = text3d.engrave_text(target, text, point(*position), vect(*normal, 0), height=height, depth=depth, spacing=spacing, font="block")
    except ValueError:
        require(not any(normal), "engraving towards {} was refused", normal)
        return Out("refused", [h(case)], 1)
    finally:
        geom3d.solid_boolean = saved[0]
        if saved[1]:
            text3d.solid_boolean = saved[1]
    require(repr(target) == keep, "engraving changed the target")
    plain = text3d.text_solid(text, height=height, depth=1.0, spacing=spacing, font="block")
    base = triangles(plain)
    if not base:
        require(not calls and repr(out) == keep and out is not target, "engraving nothing gives {}", len(calls))
        return Out("engrave nothing", [h(case)], 1)
    require(any(normal), "a normal of length 0 was accepted")
    require(len(calls) == 1 and calls[0][2] == "difference" and repr(calls[0][0]) == keep and out == ["result"], "engraving made {} booleans and returned {}", len(calls), str(out)[:40])
    tool = calls[0][1]
    T = triangles(tool)
    n = unit(normal)
    require(len(T) == len(base), "the tool has {} faces, the text {}", len(T), len(base))
    # the frame of the text: from its corners at the bottom layer and its extent along x and y
    rel = [tuple(p[i] - position[i] for i in range(3)) for t in T for p in t]
    ref = [p for t in base for p in t]
    zs = [sum(a * b for a, b in zip(p, n)) for p in rel]
    require(abs(min(zs) + depth) < 1e-6, "the engraving towards {} reaches {:.4f} into the face, not {}", normal, -min(zs), depth)
    require(1e-3 < max(zs) < 1.0, "the tool towards {} ends {:.4f} outside the face", normal, max(zs))
    for z, q in zip(zs, ref):
        require(abs(z - (max(zs) if q[2] > 0.5 else -depth)) < 1e-6, "the tool towards {} is tilted", normal)
    flat = [tuple(p[i] - z * n[i] for i in range(3)) for p, z in zip(rel, zs)]
    # least squares for the images of the axes of the text
    sxx, sxy, syy = (sum(q[a] * q[b] for q in ref) for a, b in ((0, 0), (0, 1), (1, 1)))
    det = sxx * syy - sxy * sxy
    ex, ey = [], []
    for i in range(3):
        bx, by = sum(q[0] * p[i] for q, p in zip(ref, flat)), sum(q[1] * p[i] for q, p in zip(ref, flat))
        ex.append((bx * syy - by * sxy) / det)
        ey.append((by * sxx - bx * sxy) / det)
    for q, p in zip(ref, flat):
        require(max(abs(p[i] - q[0] * ex[i] - q[1] * ey[i]) for i in range(3)) < 1e-6, "the text towards {} does not start at its position or is distorted", normal)
    require(abs(math.dist(ex, (0, 0, 0)) - 1) < 1e-6 and abs(math.dist(ey, (0, 0, 0)) - 1) < 1e-6, "the text towards {} is scaled", normal)
    require(math.dist(cross(ex, ey), n) < 1e-6, "the text towards {} is mirrored", normal)
    check_normals(tool, plain, (ex, ey, n), "the engraving tool")
    return Out("engrave", [h(case)], 2)


def judge_refuse(case):
    (what,) = case
    from yapcad import text3d
    from yapcad.geom import point, vect
    try:
        if what == "target":
            text3d.engrave_text([1, 2], "A", point(0, 0), vect(0, 0, 1, 0))
        elif what == "surface target":
            text3d.engrave_text(["surface", [], [], [], [], []], "A", point(0, 0), vect(0, 0, 1, 0))
    except ValueError:
        return Out("refused", [h(case)], 1)
    require(False, "{} was accepted", what)


NORMALS = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + [(0, 0, 5), (0, 0, -0.01), (3, -4, 0), (0.2, 0.3, -0.9), (1, 2, 3), (1e-3, 0, -1), (0, 0, 0)]


def run(ctx):
    ctx.assumptions.append("freetype's own outlines and advances are the reference for TrueType text")
    chars = sorted(PICTURES) + list("az~\u00e9\u00df")
    few = list("A1 i#") if not ctx.thorough else list("AQ1 i#")
    texts = [""] + chars + ["".join(p) for n in range(2, ctx.pick(3, 4)) for p in itertools.product(few, repeat=n)]
    block = [(t, hh, sp, d, None) for t in texts for hh in (5.0, 7.0) for sp in (0.0, 1.0, 2.5) for d in (1.0,)]
    block += [(t, hh, 1.0, d, c) for t in ("A", "1 j", "-_", " ", "Q.") for hh in (0.7, 3.5, 40.0) for d in (0.25, 6.0) for c in (None, (0.0, 0.0, 0.0), (3.0, -4.0, 5.5))]
    nest = []
    for n in range(1, ctx.pick(6, 7)):
        for parents in forests(n):
            orders = list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,), tuple(range(0, n, 2)) + tuple(range(1, n, 2))]
            for o in orders:
                for shape in ("box", "diamond", "horn"):
                    for flip in ((0, 2 ** n - 1, sum(1 << i for i in range(0, n, 2))) if n < 4 or ctx.thorough else (0,)):
                        nest.append((parents, o, shape, flip, 0.0, 1.0))
    nest += [(p, tuple(range(4)), "box", 0, off, sc) for p in forests(4) for off in (0.0, 7.25, -3.0) for sc in (0.1, 2.0)]
    printable = [chr(c) for c in range(32, 127)] + list("\u00a9\u00ae\u00e9\u00c5\u0172\u0119\u00f6\u00d8")
    ttf = [(f, c, 10.0, 1.0, 2.0) for f in range(ctx.pick(3, len(FONTS))) for c in printable]
    ttf += [(f, t, hh, sp, d) for f in range(2) for t in ("", "AB", "a g", "0@8", "iB%") for hh in (5.0, 12.5) for sp in (0.0, 1.0, 2.5) for d in (1.0, 0.3)]
    fit = list(itertools.product(("", "I", " ", "AB", "LABEL", "DARK MATTER LAB", "x" * 30, "\u00df"), (0.5, 8.0, 20.0, 50.0, 160.0, 1000.0), (0.0, 1.0, 3.0), (None, 0.5, 20.0), (None, 0)))
    ups = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 0, -1), (1, 1, 0), (0.1, -0.2, 2)]
    place = [("Ab", (1.0, -2.0, 3.0), n, u, 20.0, 1.5, 0.0, dsl, None) for n in NORMALS for u in ups for dsl in (False, True)]
    place += [(t, c, n, u, w, d, m, False, f) for t in ("", " ", "LAB-1") for c in ((0.0, 0.0, 0.0), (0.0, 66.5, 100.0)) for n, u in (((0, 1, 0), (0, 0, 1)), ((1, 2, 3), (0, 1, 0)), ((0, 0, -1), (1, 0, 0)))
              for w in (12.0, 180.0) for d in (0.4, 3.0) for m in (None, 0.0, 0.75, -0.5) for f in (None, 0)]
    place = [p for p in place if not (p[7] and (max(map(abs, cross(p[3], p[2]))) < 1e-9 or not any(p[2])))]
    engrave = [(t, p, n, hh, d, 1.0, dsl) for t in ("", "F", "J1") for p in ((0.0, 0.0, 0.0), (2.0, -3.0, 10.0)) for n in NORMALS for hh in (3.0, 8.0) for d in (0.5, 2.0) for dsl in (False, True)]
    ctx.explore(judge, [("block", block), ("nest", nest), ("ttf", ttf), ("fit", fit), ("place", place), ("engrave", engrave),
                        ("refuse", [("target",), ("surface target",)])], batch=24)
