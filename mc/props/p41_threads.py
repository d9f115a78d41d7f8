"""P41: threads are helices of their pitch, and fasteners have the dimensions asked for."""
import itertools
import math
from contextlib import contextmanager

from mc import mesh
from mc.core import Out, h, require as _require

META = {
    "id": "P41",
    "title": "Threads are closed helices and fasteners have their dimensions",
    "statement": "The profile of a thread at every angle is its 60-degree form moved along the axis by the lead per turn, right- or left-handed, with the diameter, depth, starts and taper of the thread, from one end of the range to the other, and it meets itself after a turn. The surface made of it is bounded only by the circles at its ends; hex nuts are closed solids, and the parts of a hex cap screw too. Bolts and nuts have the diameters, lengths, heights and widths of their arguments, catalog entry and tolerance class, in millimetres (inches for unified lengths).",
    "over": ["inputs"],
    "forall": "every thread of the grid (pitches, starts, hands, internal or not, taper, ranges, sampling densities) at every angle of the grid; every bundled size and class, and every specification of the grid, as bolt and nut",
    "why": "A seam after a full turn, a short end or a wrong hand appear only for particular combinations of starts, hand, range and sampling; the suite samples three profiles and checks bounding boxes.",
    "files": ["src/yapcad/threadgen.py", "src/yapcad/fasteners_legacy.py", "src/yapcad/fasteners/builders.py", "src/yapcad/fasteners/__init__.py", "src/yapcad/geom3d_util.py"],
    "mech": [["thread profile", "threadgen.py:sample_thread_profile"], ["thread surface", "geom3d_util.py:makeRevolutionThetaSamplingSurface"], ["nut", "fasteners_legacy.py:build_hex_nut"], ["bolt", "fasteners_legacy.py:build_hex_cap_screw"], ["catalog fasteners", "fasteners/builders.py:build_hex_bolt_from_catalog"]],
    "technique": "exhaustive enumeration of thread parameters and angles against an independent model of the helix, and of fastener specifications with edge-pairing and dimension checks on the real meshes",
    "note": "the union of the parts of a bolt is replaced by its documented fallback, stacking, because native solid booleans are not claimed (P17)",
}

TOL = 1e-6


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# ---- the reference form

def ref_radius(t, z, u):
    """Radius at axial position z where the form is at u (multiples of the pitch from a crest)."""
    D, P, crest, root, depth, internal, taper = t
    major = (D + taper * z) / 2
    low = major - depth * P
    if not internal:
        low = max(low, 0.0)
    u = abs(u - round(u))
    a, b = crest / 2, 0.5 - root / 2
    if u <= a:
        return major
    if u >= b:
        return low
    return major + (low - major) * (u - a) / (b - a)


def form(prof):
    return (prof.D_nominal, prof.P_pitch, prof.crest_flat_ratio, prof.root_flat_ratio, prof.thread_depth_ratio, prof.internal, prof.taper_ratio)


def interp(pts, z):
    """Values of the polyline (z, r) at z, both sides of a jump."""
    out = []
    for (z0, r0), (z1, r1) in zip(pts, pts[1:]):
        if z0 - 1e-12 <= z <= z1 + 1e-12:
            out.append(r0 if z1 - z0 < 1e-12 else r0 + (r1 - r0) * (z - z0) / (z1 - z0))
    return out


def build_profile(kind, D, pitch, starts, hand, internal, taper):
    from dataclasses import replace
    from yapcad.threadgen import ThreadProfile, metric_profile, unified_profile
    if kind == "metric":
        p = metric_profile(D, pitch, strts=starts, internal=internal)
        want = (D, pitch, 1 / 8, 1 / 8 if internal else 1 / 4, None)
    elif kind == "unified":
        p = unified_profile(D / 25.4, 25.4 / pitch, strts=starts, internal=internal)
        want = (D, pitch, 1 / 8, 1 / 8 if internal else 1 / 4, None)
    else:
        p = ThreadProfile(D_nominal=D, P_pitch=pitch, starts=starts, internal=internal, crest_flat_ratio=0.2, root_flat_ratio=0.1, thread_depth_ratio=0.5)
        want = (D, pitch, 0.2, 0.1, 0.5)
    require(abs(p.D_nominal - want[0]) < TOL and abs(p.P_pitch - want[1]) < TOL, "{} {} {}: diameter {} and pitch {}", kind, D, pitch, p.D_nominal, p.P_pitch)
    require(abs(p.crest_flat_ratio - want[2]) < TOL and abs(p.root_flat_ratio - want[3]) < TOL, "{}: flats {} {}", kind, p.crest_flat_ratio, p.root_flat_ratio)
    # 60-degree threads are between the depth of engagement and the full sharp V
    require(want[4] is None or p.thread_depth_ratio == want[4], "{}: depth {}", kind, p.thread_depth_ratio)
    require(0.5 < p.thread_depth_ratio + (0.1 if want[4] else 0) < 0.867, "{} thread of pitch {}: depth {} of the pitch", kind, pitch, p.thread_depth_ratio)
    require(p.starts == starts and p.internal == internal, "{}: {}", kind, p)
    require(abs(p.lead() - starts * pitch) < TOL, "{}: lead {} with {} starts of pitch {}", kind, p.lead(), starts, pitch)
    return replace(p, handedness=hand, taper_ratio=taper)


def judge_profile(case):
    kind, D, pitch, starts, hand, internal, taper, x0, x1, spp, thetas = case
    from yapcad.threadgen import sample_thread_profile
    prof = build_profile(kind, D, pitch, starts, hand, internal, taper)
    t = form(prof)
    lead = starts * pitch
    sign = -1 if hand.lower() == "left" else 1
    zone = 0.2 * lead
    first = None
    states = []
    for th in thetas:
        pts, wrap = sample_thread_profile(prof, x0, x1, th, samples_per_pitch=spp)
        pts = [(p[0], p[1]) for p in pts]
        where = "%s theta %s" % (case[:10], th)
        require(all(b[0] - a[0] > -1e-9 for a, b in zip(pts, pts[1:])), "{}: the samples go back along the axis", where)
        require(abs(pts[0][0] - x0) < TOL and abs(pts[-1][0] - x1) < TOL, "{}: the profile runs from {} to {}", where, pts[0][0], pts[-1][0])
        if first is None:
            first = (pts, wrap)
        require(len(pts) == len(first[0]) and wrap == first[1], "{}: {} samples (wrap {}), {} (wrap {}) at {}", where, len(pts), wrap, len(first[0]), first[1], thetas[0])
        off = sign * th / 360.0 * lead
        for z, r in pts:
            if x0 + zone + 1e-9 < z < x1 - zone - 1e-9:
                want = ref_radius(t, z, (z - off) / pitch)
                require(abs(r - want) < 2e-5, "{}: radius {} at {}, {} in the thread", where, r, z, want)
            else:
                # run-out: between the end radius and the form
                base = (D + taper * z) / 2
                dep = t[4] * pitch
                require(base - dep - 1e-5 <= r <= base + dep + 1e-5, "{}: radius {} at {} near an end", where, r, z)
        ends = {round(r, 6) for z, r in pts if z == x0}, {round(r, 6) for z, r in pts if z == x1}
        want0 = (D + taper * x0) / 2 + (1 if internal else -1) * t[4] * pitch
        want1 = (D + taper * x1) / 2 + (t[4] * pitch if internal else 0.0)
        if x1 - x0 > 2 * zone + 1e-9:
            require(all(abs(r - want0) < 2e-5 for r in ends[0]) and all(abs(r - want1) < 2e-5 for r in ends[1]), "{}: end radii {} and {}, {} and {} expected", where, ends[0], ends[1], want0, want1)
            # the form is followed between samples too (all corners are sampled)
            n = 97
            for k in range(n):
                z = x0 + zone + (k + 0.5) / n * (x1 - x0 - 2 * zone)
                vals = interp(pts, z)
                pads = pitch / spp + pitch
                if z - x0 - zone < pads or x1 - zone - z < pads:
                    continue
                want = ref_radius(t, z, (z - off) / pitch)
                require(any(abs(v - want) < 2e-5 + abs(taper) * pitch for v in vals), "{}: radius {} at {}, {} in the thread", where, vals, z, want)
        states.append(h(repr((case[:10], th))))
    # after a turn the profile meets itself ``wrap`` samples further
    a, w = first
    b = [(p[0], p[1]) for p in sample_thread_profile(prof, x0, x1, 360.0, samples_per_pitch=spp)[0]]
    n = 0
    for i in range(len(b)):
        if 0 <= i + w < len(a):
            n += 1
            require(abs(a[i + w][0] - b[i][0]) < TOL and abs(a[i + w][1] - b[i][1]) < 2e-5, "{}: sample {} after a turn is {}, sample {} before is {}", case[:10], i, b[i], i + w, a[i + w])
        else:
            require(b[i][0] in (x0, x1) or abs(b[i][0] - x0) < TOL or abs(b[i][0] - x1) < TOL, "{}: sample {} after a turn, {}, has no partner", case[:10], i, b[i])
    require(n >= 2, "{}: a turn leaves no sample to meet", case[:10])
    return Out("profile", states=states, steps=len(thetas))


# ---- surfaces

def clusters(pts, tol):
    """Index of the cluster of each point (points within tol join)."""
    grid, rep, out = {}, [], []
    for p in pts:
        key = tuple(math.floor(c / tol) for c in p)
        hit = None
        for d in itertools.product((-1, 0, 1), repeat=3):
            for i in grid.get((key[0] + d[0], key[1] + d[1], key[2] + d[2]), ()):
                if max(abs(a - b) for a, b in zip(p, rep[i])) <= tol:
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            hit = len(rep)
            rep.append(p)
            grid.setdefault(key, []).append(hit)
        out.append(hit)
    return out, rep


def open_edges(surfs, tol=2e-5):
    """Unpaired directed edges of the faces of some surfaces, and their triangles."""
    tris = []
    for s in surfs:
        for f in s[3]:
            tris.append(tuple(tuple(s[1][i][:3]) for i in f))
    idx, rep = clusters([p for t in tris for p in t], tol)
    count = {}
    for k in range(len(tris)):
        f = idx[3 * k:3 * k + 3]
        for a, b in zip(f, f[1:] + f[:1]):
            if a != b:
                count[(a, b)] = count.get((a, b), 0) + 1
    bad = []
    for (a, b), n in count.items():
        m = count.get((b, a), 0)
        if n > m:
            bad.append((rep[a], rep[b]))
    return bad, tris


def judge_surface(case):
    kind, D, pitch, starts, hand, internal, taper, x0, x1, spp, arcs = case
    from yapcad.geom3d_util import makeRevolutionThetaSamplingSurface
    from yapcad.threadgen import sample_thread_profile
    prof = build_profile(kind, D, pitch, starts, hand, internal, taper)
    t = form(prof)
    lead = starts * pitch
    zone = 0.2 * lead
    sign = -1 if hand.lower() == "left" else 1
    surf = makeRevolutionThetaSamplingSurface(lambda a, b, th: sample_thread_profile(prof, a, b, th, samples_per_pitch=spp), x0, x1, arcSamples=arcs)
    bad, tris = open_edges([surf])
    for a, b in bad:
        require((abs(a[2] - x0) < 1e-4 and abs(b[2] - x0) < 1e-4) or (abs(a[2] - x1) < 1e-4 and abs(b[2] - x1) < 1e-4), "{}: the surface is open between {} and {}", case, a, b)
    for end in (x0, x1):
        n = sum(1 for a, b in bad if abs(a[2] - end) < 1e-4)
        require(n == arcs, "{}: the end at {} has {} edges, {} samples asked for", case, end, n, arcs)
    for v in surf[1]:
        x, y, z = v[:3]
        if x0 + zone + 1e-6 < z < x1 - zone - 1e-6:
            th = math.degrees(math.atan2(y, x)) / 360.0
            want = ref_radius(t, z, (z - sign * th * lead) / pitch)
            require(abs(math.hypot(x, y) - want) < 1e-4, "{}: vertex {} has radius {}, {} in the thread", case, v[:3], math.hypot(x, y), want)
    # no facet spans more than one angular step, and all face away from the axis
    step = 2 * math.pi / arcs
    for tr in tris:
        ang = [math.atan2(p[1], p[0]) for p in tr]
        span = max(abs(math.remainder(a - b, 2 * math.pi)) for a in ang for b in ang)
        require(span < step * 1.001 + 1e-9, "{}: the facet {} spans {:.4f} rad", case, tr, span)
    # the enclosed volume, by the theorem of divergence with flat ends
    r0 = (D + taper * x0) / 2 + (1 if internal else -1) * t[4] * pitch
    r1 = (D + taper * x1) / 2 + (t[4] * pitch if internal else 0.0)
    cap = arcs / 2 * math.sin(step)
    vol = mesh.vol(tris) + cap * (r1 * r1 * x1 - r0 * r0 * x0) / 3
    lo = hi = 0.0
    n = 400
    for k in range(n):
        z = x0 + (k + 0.5) / n * (x1 - x0)
        base = (D + taper * z) / 2
        dep = t[4] * pitch
        runout = z < x0 + zone or z > x1 - zone
        lo += cap * max(base - dep, 0) ** 2 * (x1 - x0) / n
        hi += cap * (base + (dep if runout and internal else 0)) ** 2 * (x1 - x0) / n
    require(lo * 0.995 < vol < hi * 1.005, "{}: the thread encloses {:.4f}, cylinders of its radii {:.4f} and {:.4f}", case, vol, lo, hi)
    return Out("surface", states=[h(repr(case))], steps=len(tris))


# ---- fasteners

@contextmanager
def stacked():
    """Unions of bolt parts fall back to stacking them."""
    import yapcad.fasteners_legacy as L
    import yapcad.geom3d as g

    def refuse(*a, **k):
        raise RuntimeError("no union")
    old = {m: m.solid_boolean for m in (L, g) if hasattr(m, "solid_boolean")}
    for m in old:
        m.solid_boolean = refuse
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for m, f in old.items():
            m.solid_boolean = f


def bounds(tris):
    return [(min(p[i] for t in tris for p in t), max(p[i] for t in tris for p in t)) for i in range(3)]


def across_flats(tris, z0, z1):
    """Distance between the planes of the three pairs of hex sides, from the vertices of vertical outer facets."""
    best = []
    pts = {tuple(round(c, 5) for c in p[:2]) for t in tris for p in t if z0 - 1e-6 <= p[2] <= z1 + 1e-6}
    for k in range(3):
        out = []
        for off in (math.pi / 6, 0.0):
            a = off + k * math.pi / 3
            w = [x * math.cos(a) + y * math.sin(a) for x, y in pts]
            out.append(max(w) - min(w))
        best.append(min(out))
    return best


def near(a, b, tol=1e-4):
    return abs(a - b) <= tol * max(1.0, abs(b))


def check_nut(where, nut, D, pitch, depth, internal_d, flats, thick, arcs, hand, starts):
    from yapcad.metadata import get_solid_metadata
    bad, tris = open_edges(nut[1])
    require(not bad, "{}: the nut is open, e.g. between {} and {} ({} edges)", where, *(bad[0] if bad else (0, 0)), len(bad))
    b = bounds(tris)
    require(near(b[2][0], 0.0) and near(b[2][1], thick), "{}: from {} to {}, thickness {}", where, b[2][0], b[2][1], thick)
    for w in across_flats(tris, 0, thick):
        require(near(w, flats), "{}: {} across flats instead of {}", where, w, flats)
    vol = mesh.vol(tris)
    hexa = flats * flats * math.sqrt(3) / 2
    cap = max(24, arcs) / 2 * math.sin(2 * math.pi / max(24, arcs))
    rmin, rmax = internal_d / 2 - depth * pitch, internal_d / 2 + depth * pitch
    require(thick * (hexa - cap * rmax ** 2) < vol < thick * (hexa - cap * rmin ** 2), "{}: volume {}", where, vol)
    inner = [math.hypot(p[0], p[1]) for t in tris for p in t]
    require(near(min(inner), rmin, 1e-3), "{}: the bore is {} wide, {} expected", where, 2 * min(inner), 2 * rmin)
    m = get_solid_metadata(nut, create=False)
    require({"fastener", "hex_nut"} <= set(m["tags"]) and m["layer"] == "hardware", "{}: {}", where, m)
    require(m["hex_nut"] == {"diameter": D, "pitch": pitch, "width_flat": flats, "thickness": thick, "starts": starts, "handedness": hand}, "{}: metadata {}", where, m["hex_nut"])
    # the hand: crests of the bore climb with the angle for right-hand threads
    zone = 0.2 * pitch * starts
    for s in nut[1]:
        for v in s[1]:
            x, y, z = v[:3]
            if math.hypot(x, y) < internal_d / 2 + 1e-6 and zone + 1e-6 < z < thick - zone - 1e-6:
                th = math.atan2(y, x) / (2 * math.pi)
                off = (-th if hand == "left" else th) * pitch * starts
                want = ref_radius((internal_d, pitch, 1 / 8, 1 / 8, depth, True, 0.0), z, (z - off) / pitch)
                require(abs(math.hypot(x, y) - want) < 1e-4, "{}: bore radius {} at {}, {} in the thread", where, math.hypot(x, y), v[:3], want)
    return tris


def check_bolt(where, bolt, thread_d, pitch, depth, spec, arcs):
    """spec = (diameter, thread_length, length, head_height, flats, washer_t, washer_d, shank_d)."""
    from yapcad.metadata import get_solid_metadata
    dia, tl, length, hh, flats, wt, wd, sd = spec
    bad, tris = open_edges(bolt[1])
    require(not bad, "{}: a part of the bolt is open, e.g. between {} and {} ({} edges)", where, *(bad[0] if bad else (0, 0)), len(bad))
    b = bounds(tris)
    top = length + wt + hh
    require(near(b[2][0], 0.0) and near(b[2][1], top), "{}: from {} to {}, height {}", where, b[2][0], b[2][1], top)
    head = [t for t in tris if min(p[2] for p in t) > length + wt - 1e-6]
    for w in across_flats(head, length + wt, top):
        require(near(w, flats), "{}: {} across flats instead of {}", where, w, flats)

    def rad(z0, z1):
        return max((math.hypot(p[0], p[1]) for t in tris for p in t if min(q[2] for q in t) > z0 - 1e-6 and max(q[2] for q in t) < z1 + 1e-6 and max(q[2] for q in t) - min(q[2] for q in t) > 1e-9), default=None)
    require(near(rad(0, tl), thread_d / 2), "{}: the thread is {} wide, {} expected", where, 2 * rad(0, tl), thread_d)
    if length - tl > 1e-3:
        r = rad(tl, length)
        require(r is not None and near(r, sd / 2), "{}: the shank is {} wide, {} expected", where, r and 2 * r, sd)
    if wt > 1e-3:
        r = rad(length, length + wt)
        require(r is not None and near(r, wd / 2), "{}: the washer face is {} wide, {} expected", where, r and 2 * r, wd)
    vol = mesh.vol(tris)
    hexa = flats * flats * math.sqrt(3) / 2
    lo = math.pi * (thread_d / 2 - depth * pitch) ** 2 * tl + math.pi * sd ** 2 / 4 * (length - tl) + math.pi * wd ** 2 / 4 * wt + hexa * hh
    hi = math.pi * (thread_d / 2) ** 2 * tl + math.pi * sd ** 2 / 4 * (length - tl) + math.pi * wd ** 2 / 4 * wt + hexa * hh
    require(0.96 * lo < vol < 1.001 * hi, "{}: volume {}, between {} and {} expected", where, vol, lo, hi)
    m = get_solid_metadata(bolt, create=False)
    require({"fastener", "hex_cap_screw"} <= set(m["tags"]) and m["layer"] == "hardware", "{}: {}", where, m)
    got = m["hex_cap_screw"]
    want = {"diameter": dia, "thread_length": tl, "shank_length": length, "head_height": hh, "head_flat": flats, "washer_thickness": wt, "washer_diameter": wd}
    require(set(got) == set(want) and all(near(got[k], want[k], 1e-9) for k in want), "{}: metadata {} instead of {}", where, got, want)


def judge_bolt(case):
    """case = (profile kind, D, pitch, starts, hand, tl, length, head, flats, washer t, washer d, shank d, arcs, spp)."""
    kind, D, pitch, starts, hand, tl, length, hh, flats, wt, wd, sd, arcs, spp = case
    from yapcad.fasteners import HexCapScrewSpec, build_hex_cap_screw
    prof = build_profile(kind, D, pitch, starts, hand, False, 0.0)
    spec = HexCapScrewSpec(diameter=D, thread_length=tl, shank_length=length, head_height=hh, head_flat_diameter=flats, washer_thickness=wt,
                           washer_diameter=wd, shank_diameter=sd, starts=starts, thread_arc_samples=arcs, thread_samples_per_pitch=spp)
    bad = D <= 0 or tl <= 0 or tl > length or hh <= 0 or flats <= D or arcs < 12 or spp < 1
    with stacked():
        try:
            bolt = build_hex_cap_screw(prof, spec)
        except ValueError as e:
            require(bad, "{}: {}", case, e)
            return Out("refused", states=[h(repr(case))], steps=1)
    require(not bad, "{}: the specification is accepted", case)
    check_bolt(case, bolt, D, pitch, prof.thread_depth_ratio, (D, tl, length, hh, flats, wt, wd or flats, sd or D), arcs)
    return Out("bolt", states=[h(repr(case))], steps=1)


def judge_nut(case):
    kind, D, pitch, starts, hand, flats, thick, arcs, spp = case
    from yapcad.fasteners import HexNutSpec, build_hex_nut
    prof = build_profile(kind, D, pitch, 1, "right", True, 0.0)
    spec = HexNutSpec(diameter=D, pitch=pitch, width_flat=flats, thickness=thick, handedness=hand, starts=starts, thread_arc_samples=arcs, thread_samples_per_pitch=spp)
    bad = flats <= 0 or thick <= 0
    try:
        nut = build_hex_nut(prof, spec)
    except ValueError as e:
        require(bad, "{}: {}", case, e)
        return Out("refused", states=[h(repr(case))], steps=1)
    require(not bad, "{}: the specification is accepted", case)
    if kind == "custom":
        return Out("nut", states=[h(repr(case))], steps=1)
    check_nut(case, nut, D, pitch, prof.thread_depth_ratio, D, flats, thick, arcs, hand, starts)
    return Out("nut", states=[h(repr(case))], steps=1)


def judge_catalog(case):
    """case = (what, series, size, class, length or hand, thread length, starts)."""
    what, series, size, cls, arg, tl, starts = case
    import yapcad.fasteners as F
    F.clear_cache()
    e = F.get_thread_data(series, size)
    d, p = e["nominal_diameter"], e["pitch"]
    metric = series.startswith("metric")
    kw = {"thread_arc_samples": 24, "thread_samples_per_pitch": 2, "starts": starts}
    if cls:
        kw["tolerance_class"] = cls
    tol = e["tolerances"][cls or {"bolt": ("6g", "2A"), "nut": ("6H", "2B")}[what][0 if metric else 1]]
    if what == "nut":
        fn = F.metric_hex_nut if metric else F.unified_hex_nut
        nut = fn(size, handedness=arg, **kw)
        b = e["hex_nut"]
        check_nut(case, nut, d, p, 0.57, d + tol.get("EI", 0.0), b["width_across_flats"], b["thickness"], 24, arg, starts)
        return Out("catalog nut", states=[h(repr(case))], steps=1)
    fn = F.metric_hex_bolt if metric else F.unified_hex_bolt
    unit = 1.0 if metric else 25.4
    with stacked():
        bolt = fn(size, arg, thread_length=tl, **kw)
    length = arg * unit
    if tl is None:
        want = min(2 * d + (6 if length <= 125 else 12 if length <= 200 else 25), length)
    else:
        want = min(tl * unit, length)
    b = e["hex_bolt"]
    td = d + tol.get("es", 0.0) - tol.get("allowance", 0.0)
    check_bolt(case, bolt, td, p, 0.57, (d, want, length, b["head_height"], b["width_across_flats"], b.get("washer_face_thickness", 0.5),
                                         b.get("washer_face_diameter") or b["width_across_flats"], d), 24)
    return Out("catalog bolt", states=[h(repr(case))], steps=1)


def run(ctx):
    from mc.props import p40_catalog as cat
    th = ctx.pick((0.0, 45.0, 90.0, 211.0, 300.0), (0.0, 1.0, 30.0, 45.0, 90.0, 180.0, 211.0, 270.0, 300.0, 359.0))
    prof = [(k, D, P, s, hand, i, tp, x0, x1, spp, th)
            for k in ("metric", "unified", "custom") for (D, P) in ctx.pick(((8.0, 1.25), (3.0, 0.35), (25.4 / 2, 25.4 / 13)), ((8.0, 1.25), (3.0, 0.35), (25.4 / 2, 25.4 / 13), (2.5, 0.45), (24.0, 3.0), (10.0, 0.7)))
            for s in (1, 2, 3) for hand in ("right", "left", "LEFT", "Right")[:ctx.pick(3, 4)] for i in (False, True) for tp in (0.0, 0.0625)
            for (x0, x1) in ((0.0, 12.0), (2.5, 9.1), (-7.3, 0.0), (0.0, 10 * P)) for spp in ctx.pick((1, 4, 6, 8), (1, 2, 3, 4, 5, 6, 8, 16))]
    surf = [(k, D, P, s, hand, i, tp, x0, x1, spp, a)
            for k in ("metric", "unified") for (D, P) in ((8.0, 1.25), (3.0, 0.35)) for s in (1, 2, 3) for hand in ("right", "left") for i in (False, True)
            for tp in (0.0, 0.05) for (x0, x1) in ((0.0, 6.5), (2.0, 7.0)) for spp in ctx.pick((1, 4), (1, 2, 4, 6, 8)) for a in ctx.pick((24,), (24, 36, 50))]
    bolts = [(k, D, P, s, hand, tl, L, hh, fl, wt, wd, sd, arcs, spp)
             for k in ("metric", "unified") for (D, P) in ((6.0, 1.0), (9.525, 25.4 / 16)) for (s, hand) in ((1, "right"), (2, "left"))
             for (tl, L) in ((12.0, 20.0), (20.0, 20.0), (7.0, 31.0)) for (hh, fl) in ((4.0, 12.0),) for (wt, wd) in ((0.5, 11.0), (0.0, None), (1.0, None))
             for sd in (None, D + 0.25) for (arcs, spp) in ctx.pick(((24, 2), (36, 1)), ((24, 2), (36, 1), (50, 4), (90, 6)))]
    ok = ("metric", 6.0, 1.0, 1, "right", 12.0, 20.0, 4.0, 10.0, 0.5, 9.0, None, 24, 1)
    for i, v in ((5, 0.0), (5, 20.1), (5, -1.0), (7, 0.0), (7, -2.0), (8, 6.0), (8, 5.0), (12, 11), (13, 0)):
        bolts.append(ok[:i] + (v,) + ok[i + 1:])
    nuts = [(k, D, P, s, hand, fl, t, a, spp) for k in ("metric", "unified") for (D, P) in ((8.0, 1.25), (3.0, 0.35), (9.525, 25.4 / 16)) for s in (1, 2) for hand in ("right", "left")
            for (fl, t) in ((2 * D, 5.0), (1.7 * D, 8.0)) for a in ctx.pick((12, 24, 72), (12, 24, 36, 72, 100, 180)) for spp in ctx.pick((1, 4), (1, 2, 4, 6))]
    nuts += [("custom", 8.0, 1.25, 1, "right", fl, t, 24, 1) for fl, t in ((0.0, 5.0), (-1.0, 5.0), (13.0, 0.0), (13.0, -1.0))]
    catal = []
    for s in cat.SERIES:
        d = cat.bundled(s)
        if not d:
            continue
        for size, e in d["sizes"].items():
            ext = [c for c in e["tolerances"] if d["tolerance_classes"][c]["type"] == "external"]
            inn = [c for c in e["tolerances"] if d["tolerance_classes"][c]["type"] == "internal"]
            D = e["nominal_diameter"]
            unit = 1.0 if s.startswith("metric") else 25.4
            for c in [None] + ext:
                for L, tl in ((round(5 * D) / unit, None), (round(2 * D) / unit, None), (round(4 * D) / unit, round(1.5 * D) / unit), (round(3 * D) / unit, round(9 * D) / unit)):
                    catal.append(("bolt", s, size, c, L, tl, 1))
            if ctx.thorough or e["pitch"] > 1.2:
                catal += [("bolt", s, size, None, L / unit, None, 1) for L in (125.0, 126.0, 200.0, 201.0)][:2 if not ctx.thorough else 4]
            for c in [None] + inn:
                catal += [("nut", s, size, c, hand, None, st) for hand in ("right", "left") for st in (1, 2)]
    if not ctx.thorough:
        catal = [c for i, c in enumerate(catal) if c[0] == "bolt" or c[6] == 1 or i % 4 == 3]
    ctx.notes["bounds"] = {"profiles": len(prof), "angles": len(th), "surfaces": len(surf), "bolts": len(bolts), "nuts": len(nuts), "catalog": len(catal)}
    ctx.explore(judge, [("profile", prof, 8), ("surface", surf, 2), ("bolt", bolts, 4), ("nut", nuts, 4), ("catalog", catal, 4)], batch=4)
