"""P09: geometry JSON documents carry every entity of the list they were made from."""
import copy
import itertools
import json
import math

from mc.core import Out, h, require

META = {
    "id": "P09",
    "title": "Geometry JSON round trip keeps every entity, its shape and its metadata",
    "statement": "Writing any list of solids, surfaces and 2D geometry lists to geometry JSON, through JSON text, and reading it back returns every one of them: same vertices, normals, faces, shells and voids, same parametric curves (lines, arcs, circles, ellipses, splines, polylines, points, nested lists), same metadata, tags and layers, with bounding boxes and sampled polylines that match the shapes. A second round trip changes nothing further. Non-finite coordinates, foreign schemas and dangling surface references are refused.",
    "over": ["inputs"],
    "forall": "every list of up to 3 (quick) / 4 (thorough) entities drawn from 14 kinds with shared and copied identities, every metadata override, every numeric slot set to nan or infinity",
    "why": "The suite round-trips one solid and one sketch separately; losses appear for particular combinations (mixed lists, copies, repeated entities, voids, off-plane curves).",
    "files": ["src/yapcad/io/geometry_json.py", "src/yapcad/metadata.py"],
    "mech": [["entity serialisation", "io/geometry_json.py:geometry_to_json"], ["entity reconstruction", "io/geometry_json.py:geometry_from_json"], ["identity of shared surfaces", "io/geometry_json.py:_serialize_solid"]],
    "technique": "exhaustive enumeration of entity lists with a structural reference comparison of every entity before and after",
    "note": "14 entity kinds, all lists to length 3; every numeric slot x {nan, inf, -inf}; surface boundary/hole index lists and solid construction lists are outside the documented schema and not compared",
}


def P(*a):
    from yapcad.geom import point

    return point(*a)


def surf(dx=0.0, layer=None, n=4):
    from yapcad.geom3d import poly2surfaceXY
    from yapcad.metadata import get_surface_metadata, set_layer

    pts = [P(dx, 0), P(dx + 2, 0), P(dx + 2, 1), P(dx, 1)][:n]
    s = poly2surfaceXY(pts + [pts[0]])[0]
    if layer:
        set_layer(get_surface_metadata(s, create=True), layer)
    return s


def mksolid(kind):
    from yapcad.geom3d import solid
    from yapcad.metadata import add_tags, get_solid_metadata, set_layer, set_material

    if kind == "plain":
        return solid([surf()])
    if kind == "meta":
        s = solid([surf(1, None), surf(5, "inner", 3)])
        m = get_solid_metadata(s, create=True)
        add_tags(m, ["t1", "t2"])
        set_material(m, name="PLA")
        set_layer(m, "structure")
        m["name"] = "bracket"
        m["custom"] = {"a": [1, 2, {"b": None}], "é": "ü"}
        return s
    if kind == "void":
        s = solid([surf(0)], [])
        s[2] = [[surf(10, None, 3)], [surf(20), surf(30, "vl")]]
        return s


_SHARED = {}


def entity(kind):
    """Fresh entity, except the "shared_*" kinds which hand out related objects within one case."""
    from yapcad import geom as G

    if kind == "solid":
        return mksolid("plain")
    if kind == "solid_meta":
        return mksolid("meta")
    if kind == "solid_void":
        return mksolid("void")
    if kind == "surface":
        return surf(2)
    if kind == "surface_layer":
        return surf(4, "skin", 3)
    if kind == "surf_copy":  # a moved copy that kept its identity
        s = _SHARED.get("sc")
        if s is None:
            from yapcad.metadata import get_surface_metadata

            s = _SHARED["sc"] = surf(7)
            get_surface_metadata(s, create=True)
            return s
        t = copy.deepcopy(s)
        for v in t[1]:
            v[2] += 3.0 * (1 + _SHARED.setdefault("n", 0))
        _SHARED["n"] += 1
        return t
    if kind in ("solid_copy", "void_copy", "shell_void"):
        # moved copies, sharing surface identities, used as whole solids, as cavities or as both
        from yapcad.geom3d import solid
        from yapcad.metadata import get_solid_metadata, get_surface_metadata

        if "base" not in _SHARED:
            b = mksolid("void")
            get_solid_metadata(b, create=True)
            for s in b[1] + b[2][0] + b[2][1]:
                get_surface_metadata(s, create=True)
            _SHARED["base"] = b
        n = _SHARED["nb"] = _SHARED.get("nb", 0) + 1
        b = copy.deepcopy(_SHARED["base"])
        for s in b[1] + b[2][0] + b[2][1]:
            for v in s[1]:
                v[1] += 2.0 * n
        if kind == "solid_copy":
            return b
        t = solid([surf(50 + n)] if kind == "void_copy" else [copy.deepcopy(b[2][0][0])])
        t[2] = [b[2][0], b[2][1]] if kind == "void_copy" else [b[1], b[2][0]]
        return t
    if kind == "solid_shared":  # two solids sharing one surface object
        from yapcad.geom3d import solid

        s = _SHARED.setdefault("ss", surf(9, "shared"))
        return solid([s, surf(40)])
    if kind == "lines":
        return [G.line(P(0, 0), P(1, 0)), G.line(P(1, 0), P(1, 2.5))]
    if kind == "lines_z":
        return [G.line(P(0, 0, 5), P(1, 0, 5)), G.line(P(1, 0, 5), P(1, 2, -3))]
    if kind == "arcs":
        a = G.arc(P(1, 2, 3), 2.0, 30.0, 200.0)
        b = G.arc(P(0, 0), 3.0)
        c = G.arc(P(-1, 0), 1.5, 270.0, 90.0, samplereverse=True)
        d = G.arc(P(5, 5), 2.0, 0.0, 90.0)
        return [a, b, c, d]
    if kind == "ellipses":
        return [G.ellipse(P(0, 0), 4, 2, rotation=30), G.ellipse(P(1, 1), 3, 3, start=10, end=100)]
    if kind == "splines":
        pts = [P(0, 0), P(1, 2, 1), P(3, 3), P(4, 0)]
        return [G.catmullrom(pts), G.catmullrom(pts, closed=True, alpha=0.0),
                G.nurbs(pts, degree=2, weights=[1, 2, 0.5, 1]), G.nurbs(pts, degree=3, knots=[0, 0, 0, 0, 1, 1, 1, 1])]
    if kind == "poly":
        return [[P(0, 0), P(1, 0), P(1, 1)], [P(5, 5), P(6, 5), P(6, 6), P(5, 5)], G.line(P(9, 9), P(8, 8))]
    if kind == "nested":
        return [[G.line(P(0, 0), P(1, 1)), G.arc(P(0, 0), 1.0, 0.0, 45.0)], G.line(P(2, 2), P(3, 3)), P(7, 8), P(7, 8, 9)]
    raise KeyError(kind)


KINDS = ["solid", "solid_meta", "solid_void", "surface", "surface_layer", "surf_copy", "solid_copy", "void_copy", "shell_void", "solid_shared", "lines", "lines_z",
         "arcs", "ellipses", "splines", "poly", "nested"]


# -- canonical forms ---------------------------------------------------------
def cmeta(m, drop=("id", "entityId")):
    return json.loads(json.dumps({k: v for k, v in (m or {}).items() if k not in drop}))


def csurf(s, layer=None):
    m = cmeta(s[6] if len(s) > 6 else {})
    m.setdefault("schema", "metadata-namespace-v1.1")
    m.setdefault("tags", [])
    if not m.get("layer") or m.get("layer") == "default":
        m["layer"] = layer or "default"
    return ["surface", [list(map(float, v)) for v in s[1]], [list(map(float, v)) for v in s[2]], [list(f) for f in s[3]], m]


def csolid(s):
    m = cmeta(s[4] if len(s) > 4 else {})
    m.setdefault("schema", "metadata-namespace-v1.1")
    m.setdefault("tags", [])
    if not m.get("layer"):
        m["layer"] = "default"
    lay = m["layer"]
    return ["solid", [csurf(x, lay) for x in s[1]], [[csurf(x, lay) for x in v] for v in s[2]], m]


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def ispt(x):
    return isinstance(x, list) and 3 <= len(x) <= 4 and all(isnum(c) for c in x)


def celems(gl):
    out = []
    for e in gl:
        if ispt(e):
            out.append(["point"] + [float(c) for c in e[:3]])
        elif isinstance(e[0], str) and e[0] == "ellipse":
            m = {k: (list(map(float, v)) if isinstance(v, list) else float(v)) for k, v in e[2].items() if isinstance(v, (list, int, float))}
            out.append(["ellipse", [float(c) for c in e[1][:3]], m])
        elif isinstance(e[0], str):
            out.append([e[0], [[float(c) for c in p] for p in e[1]], json.loads(json.dumps(e[2]))])
        elif ispt(e[0]) and len(e) in (2, 3) and isinstance(e[1], list) and len(e[1]) == 4 and e[1][3] in (-1, -2):
            out.append(["arc", [float(c) for c in e[0][:3]], [float(c) for c in e[1]], [float(c) for c in e[2][:3]] if len(e) > 2 else [0, 0, 1]])
        elif all(ispt(p) for p in e) and len(e) >= 2:
            for a, b in zip(e, e[1:]):
                out.append(["line", [float(c) for c in a[:3]], [float(c) for c in b[:3]]])
        else:
            out.extend(celems(e))
    return out


def canon(e):
    if e[0] == "solid":
        return csolid(e)
    if e[0] == "surface":
        return csurf(e)
    return ["sketch", celems(e)]


def key(c):
    return json.dumps(c, sort_keys=True)


def bbox_of(pts):
    return [min(p[i] for p in pts) for i in range(3)] + [max(p[i] for p in pts) for i in range(3)]


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1, abs(x)) for x, y in zip(a, b))


def check_doc(doc, ents):
    ids = [e["id"] for e in doc["entities"]]
    surf_ids = [e["id"] for e in doc["entities"] if e["type"] == "surface"]
    require(len(set(surf_ids)) == len(surf_ids), "two surfaces of the document share an id")
    byid = {e["id"]: e for e in doc["entities"]}
    for e in doc["entities"]:
        require(e["metadata"].get("entityId") == e["id"], "entity id %s, its metadata says %s" % (e["id"], e["metadata"].get("entityId")))
        require(e["metadata"].get("layer"), "entity without a layer")
        if e["type"] == "surface":
            require(close(e["boundingBox"], bbox_of(e["vertices"])), "bounding box %s of surface with vertices %s" % (e["boundingBox"], e["vertices"]))
        elif e["type"] == "solid":
            pts = [v for s in e["shell"] for v in byid[s]["vertices"]]
            require(close(e["boundingBox"], bbox_of(pts)), "bounding box %s of solid" % e["boundingBox"])
        elif e["type"] == "sketch":
            check_polylines(e)


def on_curve(prim, x, y):
    k = prim["kind"]
    if k in ("arc", "circle"):
        c, r = prim["center"], prim["radius"]
        if abs(math.hypot(x - c[0], y - c[1]) - r) > 1e-6:
            return False
        if k == "arc":
            a = math.degrees(math.atan2(y - c[1], x - c[0]))
            span = (prim["end"] - prim["start"]) % 360
            return (a - prim["start"] + 1e-6) % 360 <= span + 2e-6
        return True
    if k == "ellipse":
        c = prim["center"]
        t = math.radians(prim["rotation"])
        u = ((x - c[0]) * math.cos(t) + (y - c[1]) * math.sin(t)) / prim["semi_major"]
        v = (-(x - c[0]) * math.sin(t) + (y - c[1]) * math.cos(t)) / prim["semi_minor"]
        return abs(u * u + v * v - 1) < 1e-6
    return True


def check_polylines(e):
    prims = [p for p in e["primitives"] if p["kind"] != "point"]
    require(len(prims) == len(e["polylines"]), "%d primitives, %d polylines" % (len(prims), len(e["polylines"])))
    for p, poly in zip(prims, e["polylines"]):
        if p["kind"] == "line":
            require(close(poly[0] + poly[1], p["start"][:2] + p["end"][:2]), "polyline %s of line %s" % (poly, p))
        elif p["kind"] == "polyline":
            require(close(sum(poly, []), sum((q[:2] for q in p["points"]), [])), "polyline %s of %s" % (poly, p))
        else:
            require(len(poly) >= 9, "curve sampled with %d points" % len(poly))
            for x, y in poly:
                require(on_curve(p, x, y), "sample (%g, %g) is off its %s %s" % (x, y, p["kind"], p))
            if p["kind"] in ("nurbs", "catmullrom"):
                a = p["points"][0]
                b = a if p["params"].get("closed") else p["points"][-1]
                require(close(poly[0], a[:2], 1e-6) and close(poly[-1], b[:2], 1e-6), "%s runs %s..%s" % (p["kind"], poly[0], poly[-1]))


def judge(kind, case):
    from yapcad.io.geometry_json import geometry_from_json, geometry_to_json

    _SHARED.clear()
    if kind == "nan":
        name, path, val = case
        e = entity(name)
        cur = e
        for p in path[:-1]:
            cur = cur[p]
        cur[path[-1]] = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[val]
        try:
            doc = geometry_to_json([e])
        except Exception:  # refused, in whatever words
            return Out("refused")
        try:
            json.dumps(doc, allow_nan=False)
        except ValueError:
            require(False, "%s in slot %s of %s was written to the document" % (val, path, name))
        require(False, "%s in slot %s of %s was silently dropped" % (val, path, name))
    if kind == "bad":
        return judge_bad(case)
    if kind == "override":
        return judge_override(*case)
    return judge_list(case)


def judge_list(kinds):
    from yapcad.io.geometry_json import geometry_from_json, geometry_to_json

    ents = [entity(k) for k in kinds]
    want = [canon(copy.deepcopy(e)) for e in ents]
    doc = geometry_to_json(ents, units="mm", generator={"name": "x"}, relationships=[{"type": "mated"}], attachments=[{"id": "a"}])
    text = json.dumps(doc, allow_nan=False)
    require(doc["units"] == "mm" and doc["generator"] == {"name": "x"} and doc["relationships"] == [{"type": "mated"}] and doc["attachments"] == [{"id": "a"}], "document fields")
    check_doc(doc, ents)
    back = geometry_from_json(json.loads(text))
    got = [canon(e) for e in back]
    require(sorted(map(key, got)) == sorted(map(key, want)),
            "%d entities written, %d read back; missing %s; unexpected %s" % (
                len(want), len(got), [w[0] + ":" + key(w)[:200] for w in diff(want, got)], [g[0] + ":" + key(g)[:200] for g in diff(got, want)]))
    # order within each kind is kept
    for t in ("solid", "sketch", "surface"):
        require([key(g) for g in got if g[0] == t] == [key(w) for w in want if w[0] == t], "order of %s entities changed" % t)
    # second trip is stable, identities included
    doc2 = geometry_to_json(back)
    back2 = geometry_from_json(json.loads(json.dumps(doc2)))
    require([key(canon(e)) for e in back2] == [key(g) for g in got], "second round trip differs from the first")
    for t in ("solid", "surface"):
        a, b = (sorted(e["id"] for e in d["entities"] if e["type"] == t) for d in (doc, doc2))
        require(a == b, "identity of a %s changed in the second trip: %s, then %s" % (t, a, b))
    # the document is independent of the live geometry
    before = json.dumps(doc, sort_keys=True)
    for e in ents:
        if e[0] in ("solid", "surface"):
            m = e[4] if e[0] == "solid" else e[6]
            m["layer"] = "changed-later"
            m.setdefault("tags", []).append("later")
    require(json.dumps(doc, sort_keys=True) == before, "document changed with the live geometry's metadata")
    return Out("%dof%d" % (len(got), len(kinds)), [h(tuple(kinds))], steps=4)


def diff(a, b):
    b = [key(x) for x in b]
    out = []
    for x in a:
        if key(x) in b:
            b.remove(key(x))
        else:
            out.append(x)
    return out


def judge_override(name, form, meta):
    from yapcad.io.geometry_json import geometry_from_json, geometry_to_json

    e = entity(name)
    item = {"geometry": e, "metadata": meta} if form == "dict" else (e, meta)
    keep = copy.deepcopy(meta)
    doc = json.loads(json.dumps(geometry_to_json([item])))
    require(meta == keep, "override dictionary was modified")
    top = [x for x in doc["entities"] if x["type"] == ("sketch" if not isinstance(e[0], str) else e[0])]
    require(len(top) >= 1, "entity not written")
    for k, v in meta.items():
        require(top[0]["metadata"].get(k) == v, "override %s=%r, document has %r" % (k, v, top[0]["metadata"].get(k)))
    back = geometry_from_json(doc)
    require(len(back) == 1, "%d entities read back" % len(back))
    if e[0] == "solid":
        require(all(back[0][4].get(k) == v for k, v in meta.items()), "override lost on reading")
        if "layer" in meta:
            for s, orig in zip(back[0][1], e[1]):
                require(s[6]["layer"] == meta["layer"], "shell surface in layer %s, override says %s" % (s[6]["layer"], meta["layer"]))
    if e[0] == "surface":
        require(all(back[0][6].get(k) == v for k, v in meta.items()), "override lost on reading")
    return Out("override")


def judge_bad(case):
    from yapcad.io.geometry_json import geometry_from_json, geometry_to_json

    name, what = case
    doc = json.loads(json.dumps(geometry_to_json([entity(name)])))
    ok = False
    if what == "schema":
        doc["schema"] = "other"
    elif what == "noschema":
        del doc["schema"]
    elif what == "noid":
        del doc["entities"][-1]["id"]
    elif what == "dangling":
        if not any(e["type"] == "solid" for e in doc["entities"]):
            return Out("n/a")
        drop = [e for e in doc["entities"] if e["type"] == "surface"]
        doc["entities"].remove(drop[-1])
    elif what == "extra":
        doc["entities"].append({"id": "g1", "type": "group", "children": []})
        doc["future"] = {"x": 1}
        doc["entities"][0]["future"] = 7
        ok = True
    elif what == "reversed":
        doc["entities"].reverse()
        ok = True
    try:
        got = geometry_from_json(doc)
    except ValueError:
        require(not ok, "a readable document was refused")
        return Out("refused")
    require(ok, "%s document was accepted" % what)
    _SHARED.clear()
    require([key(canon(g)) for g in got] == [key(canon(entity(name)))], "document with %s reads differently" % what)
    return Out("accepted")


def slots(e, pre=()):
    if isinstance(e, list):
        for i, x in enumerate(e):
            if isnum(x):
                yield pre + (i,)
            else:
                yield from slots(x, pre + (i,))


def run(ctx):
    def lists():
        for n in (0, 1, 2, 3):
            for ks in itertools.product(KINDS, repeat=n):
                yield list(ks)
        if ctx.thorough:
            for ks in itertools.product(KINDS, repeat=4):
                yield list(ks)

    def nans():
        for k in KINDS:
            _SHARED.clear()
            e = entity(k)
            for p in slots(e):
                # only shape slots: coordinates, radii, angles (not face indices, w, or sense flags)
                if e[0] in ("solid", "surface"):
                    q = p if e[0] == "surface" else p[2:] if p[0] == 1 else p[3:]
                    if q[0] not in (1, 2) or q[-1] == 3:
                        continue
                elif k in ("arcs",):
                    if p[-1] == 3:
                        continue
                elif p[-1] == 3:
                    continue
                for v in ("nan", "inf", "-inf"):
                    yield [k, list(p), v]
        _SHARED.clear()

    metas = [{}, {"layer": "L"}, {"tags": ["q"]}, {"layer": "L", "name": "n", "x": {"y": 1}}]
    ctx.explore(judge, [
        ("list", lists(), 24),
        ("nan", nans(), 32),
        ("override", ([k, f, m] for k in KINDS for f in ("dict", "tuple") for m in metas), 8),
        ("bad", ([k, w] for k in KINDS for w in ("schema", "noschema", "noid", "dangling", "extra", "reversed")), 8),
    ])
