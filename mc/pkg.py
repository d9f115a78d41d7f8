"""Helpers for package checks: build packages in scratch directories, reference verdicts."""
import copy
import hashlib
import json
import os
import shutil
import tempfile

_CACHE = {}


def rect_solid(dx=0.0, meta=None):
    from yapcad.geom import point
    from yapcad.geom3d import poly2surfaceXY, solid
    from yapcad.metadata import get_solid_metadata, set_material

    poly = [point(dx, 0), point(dx + 1, 0), point(dx + 1, 1), point(dx, 1), point(dx, 0)]
    s = solid([poly2surfaceXY(poly)[0]])
    md = get_solid_metadata(s, create=True)
    if meta == "ref":
        md["material"] = "steel"
    elif meta == "block":
        set_material(md, name="alu", standard="6061")
    elif meta == "tags":
        md["tags"] = ["a", "b", "a"]
    return s


def tri_surface():
    from yapcad.geom import point
    from yapcad.geom3d import poly2surfaceXY

    return poly2surfaceXY([point(0, 0), point(2, 0), point(0, 3), point(0, 0)])[0]


def entities(name):
    if name == "tiny":
        return [tri_surface()]
    if name == "solid":
        return [rect_solid()]
    if name == "two":
        return [rect_solid(0, "tags"), rect_solid(5, "ref")]
    if name == "block":
        return [rect_solid(1, "block")]
    if name == "mixed":
        return [rect_solid(0, "block"), tri_surface(), rect_solid(3, "ref")]
    raise KeyError(name)


MATERIALS = {
    "steel": {"source": {"type": "standard", "standard": {"body": "AISI", "designation": "1018"}},
              "visual": {"color": [0.5, 0.5, 0.5], "metallic": 0.9, "roughness": 0.3},
              "properties": {"density": 7870}},
    "glue": {"source": {"type": "vendor", "vendor": {"name": "x"}}},
}


def digest(data, algo="sha256"):
    return algo + ":" + hashlib.new(algo, data).hexdigest()


def scratch():
    """A scratch directory private to this process, removed at exit."""
    d = _CACHE.get(("dir", os.getpid()))
    if d is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix="vpkg", dir=base)
        _CACHE[("dir", os.getpid())] = d
    return d


class Scratch:
    """Parent-owned scratch root: workers create below it, the parent removes all of it."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vscratch")
        os.environ["VERIF_SCRATCH"] = self.d
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        os.environ.pop("VERIF_SCRATCH", None)


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def build(root, ents="solid", algo="sha256", materials=None, derived=(), attach=(), exports=(), sign=False):
    """Package written with the real API.  derived/attach/exports: bytes payloads."""
    from yapcad.package import add_geometry_file, create_package_from_entities

    m = create_package_from_entities(
        entities(ents), root, name="n", version="0.1", author="me", materials=copy.deepcopy(materials),
        hash_algorithm=algo)
    src = os.path.join(os.path.dirname(root), "src_" + os.path.basename(root))
    for i, b in enumerate(derived):
        write(os.path.join(src, "d%d.step" % i), b)
        add_geometry_file(m, os.path.join(src, "d%d.step" % i), purpose="p")
    for i, b in enumerate(attach):
        write(os.path.join(src, "a%d.txt" % i), b)
        add_geometry_file(m, os.path.join(src, "a%d.txt" % i), category="attachments", metadata={"note": "n"})
    for i, b in enumerate(exports):
        write(os.path.join(root, "exports", "e%d.stl" % i), b)
        m.data.setdefault("exports", []).append({"id": "e%d" % i, "kind": "stl", "path": "exports/e%d.stl" % i})
    if exports or algo != "sha256":
        m.recompute_hashes(algorithm=algo)
    m.save()
    return m


# -- reference verdict -----------------------------------------------------
ALGOS = hashlib.algorithms_available


def ref_file(root, entry):
    if not isinstance(entry, dict) or not isinstance(entry.get("path"), str) or not entry["path"]:
        return False
    p = os.path.realpath(os.path.join(root, entry["path"]))
    r = os.path.realpath(root)
    if p != r and not p.startswith(r + os.sep):
        return False
    if not os.path.isfile(p):
        return False
    hv = entry.get("hash")
    if hv is None:
        return True
    algo, sep, hexd = str(hv).lower().partition(":")
    if not sep or algo not in ALGOS or algo.startswith("shake"):
        return False
    with open(p, "rb") as f:
        return hashlib.new(algo, f.read()).hexdigest() == hexd


def ref_material(m):
    if not isinstance(m, dict):
        return False
    s = m.get("source")
    if not isinstance(s, dict) or s.get("type") not in ("standard", "vendor", "custom", "tested"):
        return False
    if s["type"] == "standard" and not isinstance(s.get("standard") or {}, dict):
        return False
    v = m.get("visual") or {}
    if not isinstance(v, dict):
        return False
    c = v.get("color")
    if c and not (isinstance(c, list) and len(c) == 3):
        return False
    return True


def ref_valid(root, data, geometry_ok):
    """Independent verdict: schema, every recorded file inside the package and unchanged,
    primary geometry readable, materials well formed."""
    if not isinstance(data, dict) or data.get("schema") != "ycpkg-spec-v0.1":
        return False
    g = data.get("geometry")
    if not isinstance(g, dict) or not ref_file(root, g.get("primary")):
        return False
    if not geometry_ok(os.path.join(root, g["primary"]["path"])):
        return False
    for sec in (g.get("derived"), data.get("exports"), data.get("attachments")):
        if not sec:
            continue
        if not isinstance(sec, list) or not all(ref_file(root, e) for e in sec):
            return False
    mats = data.get("materials")
    if mats:
        if not isinstance(mats, dict) or not all(ref_material(m) for m in mats.values()):
            return False
    return True
