"""P28: beams cut into pieces, with their connectors, go together again."""
import itertools
import math
import sys

from mc.core import Out, h
from mc.core import require as _require

META = {
    "id": "P28",
    "title": "Beams cut for manufacture go together again, with connectors at their cuts",
    "statement": "Points, tangents, lengths and sub-paths of a spine agree with its lines and arcs, arc length and parameter convert into each other, and proposed cuts leave no piece longer than the maximum. `segment_swept_element` cuts the element into pieces that cover it once, each naming its neighbours, its parameter range and whether it has or receives a tab; each cut's connector has the size and length that were asked for, is centred on its cut, and ends up once, in the chosen piece or as a separate part, whatever cuts or unions fail. Rings, their attachment points, holes and cuts lie where radius, tilt, centre and angles put them, and cuts keep away from holes.",
    "over": ["inputs", "sequences", "faults"],
    "forall": "every spine of up to three lines and arcs, every sequence of cuts and connector choices, and every pattern of failing cuts and unions up to the bounds",
    "why": "The tests cut spines of equal pieces and, without OCC, never run the segmentation itself; unequal pieces, mixed connector choices and failures are combinations.",
    "files": ["src/yapcad/manufacturing/path_utils.py", "src/yapcad/manufacturing/segmentation.py", "src/yapcad/manufacturing/connectors.py", "src/yapcad/manufacturing/rings.py", "src/yapcad/manufacturing/data.py"],
    "mech": [["paths", "path_utils.py:extract_sub_path"], ["pieces", "segmentation.py:segment_swept_element"], ["connectors", "connectors.py:create_interior_connector"], ["rings", "rings.py:compute_ring_cuts_avoiding_holes"]],
    "technique": "exhaustive exploration of the real segmentation code under a fault injector (every cut sequence, connector choice and failure pattern), with the solid kernel replaced by intervals of the spine; paths and rings enumerated against closed forms",
    "note": "the OCC operations themselves (splitting, sweeping, uniting solids) are stand-ins that record what they are asked: pythonocc is not available here",
}

EPS = 1e-6


def require(ok, text, *a):
    if not ok:
        _require(False, text.format(*a))


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b, k=1.0):
    return tuple(x + k * y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def unit(a):
    n = math.sqrt(dot(a, a))
    return tuple(x / n for x in a)


def dist(a, b):
    return math.sqrt(dot(sub(a, b), sub(a, b)))


def near(a, b, eps=EPS):
    return dist(tuple(a)[:3], tuple(b)[:3]) < eps


# ---------------------------------------------------------------- spines
X, Y, Z = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)
NX, NY, NZ = (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, -1.0)
D = (0.6, 0.0, 0.8)
SEGS = {
    "l1": ("line", 1.0, X), "l2": ("line", 2.0, Y), "l10": ("line", 10.0, D), "ld": ("line", 0.5, NZ),
    "a90": ("arc", 1.0, 90, X, Z), "a180": ("arc", 2.0, 180, Y, NZ), "a270": ("arc", 1.0, 270, Z, X),
    "a30": ("arc", 3.0, 30, NX, NY), "a300": ("arc", 2.0, 300, D, Y),
}


class Spine:
    """The same path twice: as a path3d, and in closed form."""

    def __init__(self, names, long=1.0):
        at = (1.0, -2.0, 0.5)
        self.pieces, segs = [], []
        for n in names:
            s = SEGS[n]
            if s[0] == "line":
                end = add(at, s[2], s[1] * long)
                self.pieces.append(("line", at, s[2], s[1] * long))
                segs.append({"type": "line", "start": list(at), "end": list(end)})
            else:
                _, r, ang, u, n_ = s
                r *= long
                v, c, a = cross(n_, u), add(at, u, -r), math.radians(ang)
                end = add(add(c, u, r * math.cos(a)), v, r * math.sin(a))
                self.pieces.append(("arc", c, r, u, v, a))
                # the normal need not be of unit length
                segs.append({"type": "arc", "center": list(c), "start": list(at), "end": list(end), "normal": [2 * x for x in n_]})
            at = end
        self.path = {"segments": segs}
        self.n = len(segs)
        self.lens = [p[3] if p[0] == "line" else p[2] * p[5] for p in self.pieces]
        self.total = sum(self.lens)

    def piece(self, t):
        i = min(int(t * self.n), self.n - 1)
        return i, t * self.n - i

    def at(self, t):
        i, s = self.piece(t)
        return self.on(i, s)

    def on(self, i, s):
        p = self.pieces[i]
        if p[0] == "line":
            return add(p[1], p[2], p[3] * s), p[2]
        _, c, r, u, v, a = p
        w = a * s
        return (add(add(c, u, r * math.cos(w)), v, r * math.sin(w)),
                add(tuple(-math.sin(w) * x for x in u), v, math.cos(w)))

    def length(self, t):
        i, s = self.piece(t)
        return sum(self.lens[:i]) + s * self.lens[i]

    def param(self, d):
        for i, ln in enumerate(self.lens):
            if d <= ln:
                return (i + d / ln) / self.n
            d -= ln
        return 1.0

    def where(self, p):
        """Distances along the spine at which it passes p."""
        out = []
        for i, pc in enumerate(self.pieces):
            base = sum(self.lens[:i])
            if pc[0] == "line":
                s = dot(sub(p, pc[1]), pc[2])
                if -EPS < s < pc[3] + EPS and near(add(pc[1], pc[2], s), p, 1e-5):
                    out.append(base + s)
            else:
                _, c, r, u, v, a = pc
                d = sub(p, c)
                w = math.atan2(dot(d, v), dot(d, u)) % math.tau
                for k in (w, w - math.tau):
                    if -EPS < k < a + EPS and near(add(add(c, u, r * math.cos(k)), v, r * math.sin(k)), p, 1e-5):
                        out.append(base + r * k)
        return out


def same_path(path, sp, d0, d1, what):
    """The sub-path is sp from distance d0 to d1: joined up, of that length, and on it all along."""
    from yapcad.manufacturing import path_utils as pu
    segs = path["segments"]
    require(segs, "{}: empty", what)
    require(near(segs[0]["start"], sp.at(sp.param(d0))[0], 1e-5), "{}: starts at {}, not {}", what, segs[0]["start"], sp.at(sp.param(d0))[0])
    require(near(segs[-1]["end"], sp.at(sp.param(d1))[0], 1e-5), "{}: ends at {}, not {}", what, segs[-1]["end"], sp.at(sp.param(d1))[0])
    for a, b in zip(segs, segs[1:]):
        require(near(a["end"], b["start"], 1e-5), "{}: torn at {}", what, a["end"])
    require(abs(pu.path_length(path) - (d1 - d0)) < 1e-5, "{}: length {}, not {}", what, pu.path_length(path), d1 - d0)
    at = d0
    for s in segs:
        one = {"segments": [s]}
        ln = pu.path_length(one)
        for f in (0.0, 0.25, 0.5, 0.75, 1.0):
            p, tg = pu.evaluate_path3d_at_t(one, f)
            want = sp.at(sp.param(min(max(at + f * ln, 0.0), sp.total)))
            require(near(p, want[0], 1e-5), "{}: passes {}, not {}", what, p, want[0])
            if 0 < f < 1 and ln > 1e-5:
                require(near(tg, want[1], 1e-4), "{}: direction {} at {}, not {}", what, tg, p, want[1])
        at += ln


def grid(n):
    g = {i / 7 for i in range(8)} | {i / n for i in range(n + 1)} | {(i + 0.5) / n for i in range(n)} | {1e-4, 1 - 1e-4}
    g |= {i / n - 1e-9 for i in range(1, n)}
    return sorted(g)


def judge_path(case):
    from yapcad.manufacturing import path_utils as pu
    sp = Spine(case)
    path = sp.path
    keep = repr(path)
    require(abs(pu.path_length(path) - sp.total) < 1e-5, "length {} of a path of {}", pu.path_length(path), sp.total)
    ts = grid(sp.n)
    for t in ts + [-0.5, 1.5]:
        c = min(max(t, 0.0), 1.0)
        p, tg = pu.evaluate_path3d_at_t(path, t)
        want = sp.at(c)
        require(near(p, want[0]), "t={}: point {}, not {}", t, p, want[0])
        require(near(tg, want[1], 1e-5), "t={}: tangent {}, not {}", t, tg, want[1])
        pp, nn = pu.compute_cut_plane(path, t)
        require(near(pp, want[0]) and near(nn, want[1], 1e-5), "t={}: cut plane {} {}", t, pp, nn)
        d = pu.parameter_to_length(path, t)
        require(abs(d - sp.length(c)) < 1e-5, "t={}: length {}, not {}", t, d, sp.length(c))
        back = pu.length_to_parameter(path, sp.length(c))
        require(abs(back - c) < 1e-5, "length {}: parameter {}, not {}", sp.length(c), back, c)
    require(pu.length_to_parameter(path, -1) == 0.0 and pu.length_to_parameter(path, sp.total + 1) == 1.0, "lengths beyond the ends are not clamped")
    for a in ts:
        for b in ts:
            if a >= b:
                try:
                    pu.extract_sub_path(path, a, b)
                except ValueError:
                    continue
                require(False, "a sub-path from {} to {}", a, b)
            if b - a < 1e-7:
                continue
            same_path(pu.extract_sub_path(path, a, b), sp, sp.length(a), sp.length(b), f"sub-path {a}..{b}")
    require(repr(path) == keep, "the path was changed")
    return Out("path", states=[h(repr(case))], steps=len(ts) ** 2)


def prov(sp, wall=2.0, size=(20.0, 12.0), solid=None, name="beam"):
    from yapcad.manufacturing import SweptElementProvenance
    from yapcad.geom import line, point
    x, y = size[0] / 2, size[1] / 2
    pts = [point(-x, -y), point(x, -y), point(x, y), point(-x, y)]
    outer = [line(pts[i], pts[(i + 1) % 4]) for i in range(4)]
    meta = {} if solid is None else {"solid": solid}
    return SweptElementProvenance(id=name, operation="sweep", outer_profile=[outer], spine=sp.path, wall_thickness=wall, metadata=meta)


def judge_cuts(case):
    from yapcad.manufacturing import compute_optimal_cuts
    names, long, limit = case
    sp = Spine(names, long)
    cuts = compute_optimal_cuts(prov(sp), limit)
    ts = [c.parameter for c in cuts]
    require(ts == sorted(set(ts)) and all(0 < t < 1 for t in ts), "cuts {}", ts)
    require(all(c.element_id == "beam" for c in cuts), "cuts of another element")
    ds = [0.0] + [sp.length(t) for t in ts] + [sp.total]
    worst = max(b - a for a, b in zip(ds, ds[1:]))
    require(worst <= limit + 1e-6, "a piece of {} where {} is the maximum; cuts {}", worst, limit, ts)
    need = math.ceil(sp.total / limit - 1e-9)
    require(len(ds) - 1 <= need + 1, "{} pieces where {} suffice", len(ds) - 1, need)
    require(need > 1 or not ts, "cuts {} of a spine that is short enough", ts)
    return Out(f"cuts {len(ts)}", states=[h(repr(case))], steps=1)


# ---------------------------------------------------------------- stand-ins for the solid kernel
class Bar:
    """A piece of the element, from distance a to b, with the tabs united with it."""

    def __init__(self, a, b, tabs=()):
        self.a, self.b, self.tabs = a, b, tuple(tabs)


class Tab:
    def __init__(self, profile, spine):
        self.profile, self.spine = profile, spine


class Swap:
    """Replace functions wherever yapcad's modules hold them, and put them back."""

    def __init__(self, **fns):
        self.fns = fns

    def __enter__(self):
        import yapcad.geom3d, yapcad.geom3d_util, yapcad.manufacturing.segmentation, yapcad.manufacturing.rings  # noqa: E401
        home = {"solid_boolean": yapcad.geom3d, "sweep_adaptive": yapcad.geom3d_util, "sweep_profile_along_path": yapcad.geom3d_util,
                "split_solid_at_plane": yapcad.manufacturing.segmentation, "extract_segment_between_planes": yapcad.manufacturing.segmentation}
        self.old = []
        for name, fn in self.fns.items():
            real = getattr(home[name], name)
            for m in list(sys.modules.values()):
                if getattr(m, "__name__", "").startswith("yapcad") and m.__dict__.get(name) is real:
                    self.old.append((m, name, real))
                    setattr(m, name, fn)
        return self

    def __exit__(self, *a):
        for m, name, real in self.old:
            setattr(m, name, real)


def sweep(profile, spine, *a, **k):
    return Tab(profile, spine)


def box(profile):
    """Width and height of a profile of lines and arcs, which must be centred."""
    from yapcad.geom import geomlistbbox
    b = geomlistbbox(profile)
    require(abs(b[0][0] + b[1][0]) < 1e-9 and abs(b[0][1] + b[1][1]) < 1e-9, "profile off centre: {}", b)
    return b[1][0] - b[0][0], b[1][1] - b[0][1]


def tab_ok(tab, sp, t, length, size, what):
    """The connector is of that size, and runs along the spine half its length to each side of t."""
    require(isinstance(tab, Tab), "{}: no connector but {!r}", what, tab)
    w = box(tab.profile)
    require(abs(w[0] - size[0]) < 1e-9 and abs(w[1] - size[1]) < 1e-9, "{}: {} by {}, not {}", what, w[0], w[1], size)
    c = sp.length(t)
    same_path(tab.spine, sp, max(0.0, c - length / 2), min(sp.total, c + length / 2), what)


# spines for segmentation: unequal pieces, long enough that a piece has room for connectors (or has not)
BEAMS = {"even": (("l10",), 10.0), "long": (("l1", "l10"), 10.0), "arc": (("a180", "l1", "a90"), 20.0)}
CUTS = ((0.2, 0.5, 0.9, 0.7), (0.501, 0.505, 0.5, 0.509), (1 / 3, 2 / 3, 0.05, 0.5))


def judge_pieces(case):
    """One segmentation. cuts: (parameter, side, override, clearance, fault) in the order given;
    fault: "" none, "s" the split fails, "u" the union fails."""
    from yapcad.manufacturing import CutPoint, segment_swept_element, build_connector_solids
    beam, wall, build, unite, cuts = case
    names, long = BEAMS[beam]
    sp = Spine(names, long)
    whole = Bar(0.0, 1.0)
    size = (20.0, 12.0)
    by_t = {c[0]: c for c in cuts}
    log = []

    def split(solid, point, normal):
        hits = [c for c in cuts if near(sp.at(c[0])[0], point, 1e-7)]
        require(len(hits) == 1, "a cut plane through {}, at none of the cuts", point)
        t = hits[0][0]
        require(near(sp.at(t)[1], normal, 1e-6), "the cut at {} is not square to the spine: {}", t, normal)
        require(isinstance(solid, Bar) and solid.a < t < solid.b, "the cut at {} misses the piece it is for", t)
        log.append(("split", t))
        if hits[0][4] == "s":
            raise RuntimeError("injected split failure")
        return Bar(solid.a, t, [x for x in solid.tabs if x[0] <= t]), Bar(t, solid.b, [x for x in solid.tabs if x[0] > t])

    def boolean(a, b, op, *r, **k):
        require(op == "union" and isinstance(a, Bar) and isinstance(b, Tab), "boolean {} of {!r} and {!r}", op, a, b)
        mid = middle(b)
        log.append(("union", mid))
        if by_t[mid][4] == "u":
            raise RuntimeError("injected union failure")
        return Bar(a.a, a.b, a.tabs + ((mid, b),))

    def middle(tab):
        """The cut a connector is for: the one in whose place it fits."""
        for c in cuts:
            d = sp.length(c[0])
            ln = c[2] or 60.0
            a, b = max(0.0, d - ln / 2), min(sp.total, d + ln / 2)
            if near(sp.at(sp.param(a))[0], tab.spine["segments"][0]["start"], 1e-5) and near(sp.at(sp.param(b))[0], tab.spine["segments"][-1]["end"], 1e-5):
                return c[0]
        require(False, "a connector from {} to {}, centred on no cut", tab.spine["segments"][0]["start"], tab.spine["segments"][-1]["end"])

    points = [CutPoint("beam", c[0], connector_length=c[2], fit_clearance=c[3], union_connector_with=c[1]) for c in cuts]
    pr = prov(sp, wall=wall, size=size, solid=whole)
    with Swap(split_solid_at_plane=split, solid_boolean=boolean, sweep_adaptive=sweep, sweep_profile_along_path=sweep):
        res = segment_swept_element(pr, points, build_connectors=build, union_connectors=unite)
        loose = build_connector_solids(pr, res.connectors) if wall else []
    done = sorted((c for c in cuts if c[4] != "s"), key=lambda c: c[0])
    ends = [0.0] + [c[0] for c in done] + [1.0]
    segs = res.segments
    n = len(done) + 1
    require(len(segs) == n == res.segment_count, "{} pieces from {} cuts that worked", len(segs), len(done))
    ids = [s.id for s in segs]
    require(len(set(ids)) == n, "pieces of the same name: {}", ids)
    for i, s in enumerate(segs):
        require(tuple(s.parameter_range) == (ends[i], ends[i + 1]), "piece {} has the range {}, not {}", i, s.parameter_range, (ends[i], ends[i + 1]))
        require(isinstance(s.solid, Bar) and (s.solid.a, s.solid.b) == (ends[i], ends[i + 1]), "piece {} holds the solid of another", i)
        require(s.parent_element_id == "beam" and res.get_segment(s.id) is s, "piece {} is not found", i)
        want = sorted(ids[j] for j in (i - 1, i + 1) if 0 <= j < n)
        require(sorted(s.mates_with) == want, "{} mates with {}, not {}", s.id, s.mates_with, want)
        require(sorted(res.assembly_graph.get(s.id, ["nothing"])) == want, "assembly graph: {} beside {}, not {}", s.id, res.assembly_graph.get(s.id), want)
    require(set(res.assembly_graph) == set(ids), "the assembly graph holds {}", list(res.assembly_graph))
    require([s.id for s in res.get_segments_for_element("beam")] == ids, "pieces of the element are not found")
    # connectors
    has = [[] for _ in segs]
    gets = [False] * n
    apart, fails = [], len(cuts) - len(done)
    if build and wall:
        for i, c in enumerate(done):
            if unite and c[1] != "none" and c[4] != "u":
                has[i + (c[1] == "b")].append(c)
                gets[i + (c[1] == "a")] = True
            else:
                apart.append(c)
            fails += unite and c[1] != "none" and c[4] == "u"
    for i, s in enumerate(segs):
        require(sorted(t for t, _ in s.solid.tabs) == sorted(c[0] for c in has[i]), "piece {} has the tabs of the cuts {}, not {}", i, [t for t, _ in s.solid.tabs], [c[0] for c in has[i]])
        for t, tab in s.solid.tabs:
            c = by_t[t]
            tab_ok(tab, sp, t, c[2] or 60.0, (20 - 2 * wall - 2 * c[3], 12 - 2 * wall - 2 * c[3]), f"tab at {t}")
        require(bool(s.has_connector_tab) == bool(has[i]), "piece {} has_connector_tab={}", i, s.has_connector_tab)
        want = "male" if has[i] else "female" if gets[i] else "none"
        require(s.connector_type == want, "piece {} of {} is {}, not {}", i, n, s.connector_type, want)
    require(sorted(c.center_parameter for c in res.connectors) == sorted(c[0] for c in apart), "separate connectors at {}, not {}", [c.center_parameter for c in res.connectors], [c[0] for c in apart])
    require(len({c.id for c in res.connectors}) == len(apart), "connectors of the same name: {}", [c.id for c in res.connectors])
    for spec in res.connectors:
        c = by_t[spec.center_parameter]
        require(abs(spec.length - (c[2] or 60.0)) < 1e-9 and spec.fit_clearance == c[3] and spec.parent_element_id == "beam", "connector {} does not fit its cut", spec)
    require(len(loose) == (len(apart) if wall else 0), "{} solids of {} connectors", len(loose), len(apart))
    for spec, tab in loose:
        c = by_t[spec.center_parameter]
        tab_ok(tab, sp, c[0], c[2] or 60.0, (20 - 2 * wall - 2 * c[3], 12 - 2 * wall - 2 * c[3]), f"connector at {c[0]}")
    require(len(res.warnings) == fails, "{} warnings of {} failures: {}", len(res.warnings), fails, res.warnings)
    # instructions: each piece placed once in order, each separate connector inserted once, after the piece it goes into
    text = res.assembly_instructions
    at = [text.find(f"Place segment '{i}'") for i in ids]
    require(-1 not in at and at == sorted(at), "the instructions do not place {}", ids)
    for spec in res.connectors:
        line = f"Insert connector '{spec.id}'"
        i = [c[0] for c in done].index(spec.center_parameter)
        require(text.count(line) == 1 and at[i] < text.find(line) < at[i + 1], "connector {} is not inserted after piece {}", spec.id, i)
    return Out(f"pieces {n} apart {len(apart)} failed {fails}", states=[h(repr(case))], steps=len(log) + 1)


def judge_refuse(case):
    """What cannot be cut is refused before anything is cut."""
    from yapcad.manufacturing import CutPoint, segment_swept_element
    what, = case
    sp = Spine(("l10",), 10.0)
    cut = []

    def split(*a):
        cut.append(a)
        return Bar(0, 1), Bar(0, 1)

    def make():
        if what == "no cuts":
            return segment_swept_element(prov(sp, solid=Bar(0, 1)), [])
        if what == "other element":
            return segment_swept_element(prov(sp, solid=Bar(0, 1)), [CutPoint("beam", 0.5), CutPoint("girder", 0.6)])
        if what == "no solid":
            return segment_swept_element(prov(sp), [CutPoint("beam", 0.5)])
        if what.startswith("t="):
            return CutPoint("beam", float(what[2:]))
        return CutPoint("beam", 0.5, union_connector_with=what)
    with Swap(split_solid_at_plane=split, sweep_adaptive=sweep):
        try:
            got = make()
        except ValueError:
            got = None
    require(got is None and not cut, "{}: accepted", what)
    return Out("refused", states=[h(repr(case))], steps=1)


# ---------------------------------------------------------------- connectors by themselves
def judge_connector(case):
    from yapcad.manufacturing.connectors import create_interior_connector, create_terminal_connector
    names, t, size, wall, gap, length, radius = case
    sp = Spine(names, 10.0)
    fit = (size[0] - 2 * wall - 2 * gap, size[1] - 2 * wall - 2 * gap)
    ok = min(fit) > 0 and min(size) - 2 * wall > 0 and (radius == 0 or 2 * radius < min(fit))
    kw = dict(wall_thickness=wall, connector_length=length, fit_clearance=gap, corner_radius=radius)
    for end in ("inner", "start", "end"):
        with Swap(sweep_adaptive=sweep, sweep_profile_along_path=sweep):
            try:
                if end == "inner":
                    tab = create_interior_connector(size[0], size[1], sp.path, t, **kw)
                else:
                    tab = create_terminal_connector(size[0], size[1], sp.path, end, **kw)
            except ValueError:
                tab = None
        require((tab is not None) == ok, "{} connector of {} {}", end, fit, "refused" if ok else "made")
        if not ok:
            continue
        if end == "inner":
            tab_ok(tab, sp, t, length or 3 * max(size), fit, "connector")
        else:
            w = box(tab.profile)
            require(abs(w[0] - fit[0]) < 1e-9 and abs(w[1] - fit[1]) < 1e-9, "{}: {} by {}, not {}", end, w[0], w[1], fit)
            ln = length or 1.5 * max(size)
            at, to = sp.at(0.0 if end == "start" else 1.0)
            tip = add(at, to, -ln if end == "start" else ln)
            segs = tab.spine["segments"]
            require(len(segs) == 1 and segs[0]["type"] == "line", "{}: not straight", end)
            require(near(segs[0]["start"], at, 1e-5) and near(segs[0]["end"], tip, 1e-5), "{}: from {} to {}, not {} to {}", end, segs[0]["start"], segs[0]["end"], at, tip)
        # the outline is the rectangle, its corners rounded by that radius
        from yapcad.geom import isarc
        rs = [e[1][0] for e in tab.profile if isarc(e)]
        require(rs == ([radius] * 4 if radius else []), "corners of {} where {} was asked for", rs, radius)
    return Out("connector " + ("made" if ok else "refused"), states=[h(repr(case))], steps=3)


def judge_tabs(case):
    """Terminal tabs are united with the segment, at the ends asked for; a failing union is an error."""
    from yapcad.manufacturing.connectors import add_terminal_connectors_to_segment
    names, start, end, length, fault = case
    sp = Spine(names, 10.0)
    made = []

    def boolean(a, b, op, *r, **k):
        require(op == "union" and isinstance(a, Bar) and isinstance(b, Tab), "boolean {}", op)
        made.append(b)
        if fault == len(made):
            raise ValueError("injected")
        return Bar(a.a, a.b, a.tabs + (b,))
    seg = Bar(0, 1)
    with Swap(solid_boolean=boolean, sweep_profile_along_path=sweep, sweep_adaptive=sweep):
        try:
            got = add_terminal_connectors_to_segment(seg, prov(sp), add_start=bool(start), add_end=bool(end), connector_length=length)
        except RuntimeError:
            got = None
    require((got is None) == (0 < fault <= start + end), "fault {}: {!r}", fault, got)
    if got is not None:
        want = [sp.at(t)[0] for t, on in ((0.0, start), (1.0, end)) if on]
        tips = [add(*sp.at(t), k * (length or 30.0)) for t, on, k in ((0.0, start, -1), (1.0, end, 1)) if on]
        require(len(got.tabs) == len(want), "{} tabs", len(got.tabs))
        for p, q in zip(want, tips):
            require(any(near(b.spine["segments"][0]["start"], p, 1e-5) and near(b.spine["segments"][-1]["end"], q, 1e-5) for b in got.tabs), "no tab from {} to {}", p, q)
    return Out("tabs", states=[h(repr(case))], steps=1 + len(made))


# ---------------------------------------------------------------- rings
def turn(p, deg, axis):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    x, y, z = p
    return {"x": (x, c * y - s * z, s * y + c * z), "y": (c * x + s * z, y, -s * x + c * z), "z": (c * x - s * y, s * x + c * y, z)}[axis.lower()]


def judge_ring(case):
    from yapcad.manufacturing.rings import create_ring_spine, compute_arc_attachment_point, create_ring_solid, add_female_holes_to_ring
    from yapcad.manufacturing import path_utils as pu
    r, centre, tilt, axis, n = case
    place = lambda p: add(turn(p, tilt, axis), centre)
    path = create_ring_spine(r, centre, tilt, axis, n)
    segs = path["segments"]
    require(len(segs) == n, "{} segments, not {}", len(segs), n)
    for i, s in enumerate(segs):
        a, b = (place((r * math.cos(math.tau * k / n), r * math.sin(math.tau * k / n), 0.0)) for k in (i, i + 1))
        require(s["type"] == "line" and near(s["start"], a) and near(s["end"], b), "segment {} runs {} to {}, not {} to {}", i, s["start"], s["end"], a, b)
    points = []
    for deg in (0, 30, 90, 135, 180, 270, 359):
        w = math.radians(deg)
        p, d = compute_arc_attachment_point(r, deg, centre, tilt, axis)
        u = (math.cos(w), math.sin(w), 0.0)
        require(near(p, place(tuple(r * k for k in u))), "attachment at {}: {}", deg, p)
        require(near(add(p, d, r), centre), "attachment at {}: direction {} does not point to the centre", deg, d)
        # the spine at that share of the turn is beside it
        q, _ = pu.evaluate_path3d_at_t(path, deg / 360)
        require(dist(q, p) <= r * (1 - math.cos(math.pi / n)) + r * 0.3 / n + EPS, "attachment at {} is away from the spine", deg)
        points.append((p, d))
    made = []

    def boolean(a, b, op, *x, **k):
        require(op == "difference" and isinstance(b, Tab), "boolean {}", op)
        made.append(b)
        return (a, b)
    with Swap(sweep_adaptive=sweep, sweep_profile_along_path=sweep, solid_boolean=boolean):
        solid, pr = create_ring_solid(r, 20.0, 12.0, 2.0, centre, tilt, axis, "ring7")
        for depth in (None, 5.0):
            made.clear()
            got = add_female_holes_to_ring(solid, points, 20.0, 12.0, 2.0, hole_depth=depth)
            require(len(made) == len(points), "{} holes of {}", len(made), len(points))
            for (p, d), hole in zip(points, made):
                s = hole.spine["segments"]
                require(len(s) == 1 and near(s[0]["start"], p) and near(s[0]["end"], add(p, d, depth or 30.0)), "the hole at {} runs to {}", p, s[0]["end"])
                w = box(hole.profile)
                # a tab of 0.18 clearance goes in, and the hole is no larger than the void of the beam
                require(16 - 0.36 < w[0] <= 16 + 1e-9 and 8 - 0.36 < w[1] <= 8 + 1e-9, "the hole is {} by {}", *w)
            for hole in reversed(made):
                require(got[1] is hole, "a hole was lost")
                got = got[0]
            require(got is solid, "the holes are in another solid")
    require(isinstance(solid, Tab) and abs(box(solid.profile)[0] - 20) < 1e-9 and abs(box(solid.profile)[1] - 12) < 1e-9, "ring of another profile")
    require(pr.id == "ring7" and pr.spine["segments"][0]["start"] == solid.spine["segments"][0]["start"] and pr.metadata["solid"] is solid and pr.wall_thickness == 2.0, "provenance of another ring")
    require(abs(box(pr.inner_profile)[0] - 16) < 1e-9 and abs(box(pr.inner_profile)[1] - 8) < 1e-9, "ring with another void")
    return Out("ring", states=[h(repr(case))], steps=n + 20)


def judge_ringsplit(case):
    """Each piece of a closed ring is cut out between the two planes at its ends, facing away from it."""
    from yapcad.manufacturing.segmentation import segment_closed_ring
    from yapcad.manufacturing.rings import create_ring_spine
    cuts, fail = case
    path = create_ring_spine(50.0, (1.0, 2.0, 3.0), 30.0, "y", 12)
    from yapcad.manufacturing import path_utils as pu
    made = []

    def between(solid, p1, n1, p2, n2):
        require(solid == "ring", "a piece of {!r}", solid)
        made.append((p1, n1, p2, n2))
        if fail == len(made):
            raise RuntimeError("injected")
        return len(made)
    bad = not cuts or any(not 0 < t < 1 for t in cuts)
    with Swap(extract_segment_between_planes=between):
        try:
            got = segment_closed_ring("ring", path, list(cuts))
        except ValueError:
            require(bad and not made, "cuts {} refused", cuts)
            return Out("ring refused", states=[h(repr(case))], steps=1)
        except RuntimeError:
            require(fail, "cuts {} failed", cuts)
            return Out("ring failed", states=[h(repr(case))], steps=len(made))
    require(not bad, "cuts {} accepted", cuts)
    require(not 0 < fail <= len(cuts) + 1, "a piece that failed is not reported")
    ends = [0.0] + sorted(cuts) + [1.0]
    require(got == list(range(1, len(ends))), "pieces {} of {}", got, len(ends) - 1)
    for i, (p1, n1, p2, n2) in enumerate(made):
        for t, p, nn, k in ((ends[i], p1, n1, -1), (ends[i + 1], p2, n2, 1)):
            q, tg = pu.evaluate_path3d_at_t(path, t)
            require(near(p, q) and near(nn, [k * x for x in tg]), "piece {}: plane at {} facing {}", i, p, nn)
    return Out(f"ring in {len(made)}", states=[h(repr(case))], steps=len(made))


def judge_ringcuts(case):
    from yapcad.manufacturing.rings import compute_ring_cuts_avoiding_holes
    circ, limit, holes, keep, target = case
    got = compute_ring_cuts_avoiding_holes(circ, limit, list(holes), keep, target_segments=target)
    n = target if target is not None else math.ceil(circ / limit)
    if n < 2:
        require(got == [], "cuts {} of a ring that needs none", got)
        return Out("none", states=[h(repr(case))], steps=1)
    require(len(got) == n - 1 and got == sorted(set(got)) and all(0 < t < 1 for t in got), "{} pieces: cuts {}", n, got)

    def away(t):
        """Distance along the ring from the nearest hole."""
        return min((circ * min(d, 1 - d) for d in (abs(t - a / 360.0) % 1.0 for a in holes)), default=math.inf)
    clear = lambda t, m=0.0: away(t) >= keep - 1e-9 + m
    ideal = [(i + 1) / n for i in range(n - 1)]
    if all(clear(t, 1e-6) for t in ideal):
        require(all(abs(a - b) < 1e-12 for a, b in zip(got, ideal)), "cuts {} where {} are clear of holes", got, ideal)
        return Out("even", states=[h(repr(case))], steps=1)
    # is there room at all? each stretch clear of holes that is wide enough has room for a cut
    k = 2000
    room = [i / k for i in range(1, k) if clear(i / k, 2e-3 * circ)]
    if len(room) >= 4 * n:
        for t in got:
            require(clear(t), "a cut at {}, {} from a hole, with room elsewhere", t, away(t))
        # each cut is the nearest clear place (to the 1/2000 of the search), when these differ
        best = [min(abs(i / k - t) for i in range(1, k) if clear(i / k)) for t in ideal]
        if all(b < 0.4 / n for b in best):
            for t, g, b in zip(ideal, got, best):
                require(abs(t - g) <= b + 2.0 / k, "the cut near {} is at {}, but {} away is clear", t, g, b)
        return Out("moved", states=[h(repr(case))], steps=1)
    return Out("no room", states=[h(repr(case))], steps=1)


def run(ctx):
    names = sorted(SEGS)
    deep = ctx.pick(3, 4)
    paths = [p for k in range(1, deep + 1) for p in itertools.product(names, repeat=k)]
    cuts = [(p, 10.0, lim) for p in paths if len(p) < 4 for lim in (3.0, 20.0, 50.0, 31.4159, 1000.0)]
    pieces = []
    sides = ("a", "b", "none")
    for beam in BEAMS:
        for ts in CUTS:
            for k in range(1, ctx.pick(4, 5)):
                full = ctx.thorough or beam == "long"
                if k == 4 and beam != "long":
                    continue
                faults = ("", "s", "u") if (k < 3 or full) else ("", "u")
                for sd in itertools.product(sides, repeat=k):
                    for ft in itertools.product(faults, repeat=k):
                        for mode in ((2.0, True, True), (2.0, True, False), (2.0, False, True), (None, True, True)):
                            if mode != (2.0, True, True) and (k == 3 and not ctx.thorough or k == 4 or "u" in ft):
                                continue
                            for over in ((None, 0.18), (25.0, 0.3)):
                                if over[0] and k == 3 and not full:
                                    continue
                                cs = tuple((t, s, over[0] if i != 1 else None, over[1], f) for i, (t, s, f) in enumerate(zip(ts, sd, ft)))
                                pieces.append((beam,) + mode + (cs,))
    conn = [(p, t, size, wall, gap, ln, rad)
            for p in [("l10",), ("l1", "l10"), ("l10", "a90"), ("a270", "l1", "a30")]
            for t in (0.02, 0.25, 0.5, 2 / 3, 0.9)
            for size in ((20.0, 12.0), (10.0, 10.0), (8.0, 30.0))
            for wall in (1.0, 3.0, 5.0)
            for gap in (0.18, 0.45, 1.5)
            for ln in (None, 7.0)
            for rad in (0, 1.0, 2.9)]
    tabs = [(p, s, e, ln, f) for p in [("l10",), ("l10", "a90"), ("a270", "l1")] for s in (0, 1) for e in (0, 1) for ln in (None, 4.0) for f in (0, 1, 2)]
    rings = [(r, c, t, ax, n) for r in (50.0, 200.0) for c in ((0.0, 0.0, 0.0), (5.0, -7.0, 30.0)) for t in (0.0, 30.0, -90.0, 180.0) for ax in ("x", "y", "z", "X") for n in (12, 72)]
    rs = (0.1, 0.25, 0.5, 0.8, 0.0, 1.0)
    split = [(c, f) for k in range(0, 4) for c in itertools.permutations(rs, k) for f in (0, 1, 2, 4)]
    angles = (0.0, 45.0, 90.0, 120.0, 179.0, 240.0, 355.0, 360.0)
    rc = [(1000.0, 1000.0 / n + 1e-6, hs, keep, tg)
          for n in (1, 2, 3, 4) for k in range(0, ctx.pick(4, 5)) for hs in itertools.combinations(angles, k)
          for keep in (30.0, 60.0, 5.0) for tg in (None, 2, 3)]
    refuse = [(w,) for w in ("no cuts", "other element", "no solid", "t=0", "t=1", "t=-0.5", "t=1.5", "t=nan", "c", "", "A")]
    ctx.notes["spines"] = len(paths)
    ctx.assumptions.append("splitting, sweeping and uniting solids are stand-ins (no pythonocc here)")
    ctx.explore(judge, [("path", paths, 8), ("cuts", cuts, 64), ("pieces", pieces, 100), ("connector", conn, 64), ("tabs", tabs),
                        ("ring", rings, 4), ("ringsplit", split, 64), ("ringcuts", rc, 20), ("refuse", refuse)])
