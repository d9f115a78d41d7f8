"""P37: metadata sidecars hold the part's metadata and say where it came from."""
import copy
import datetime
import hashlib
import itertools
import os
import shutil
import tempfile
import time
from pathlib import Path

import yaml

from mc.core import Out, h, require as _require

os.environ["TZ"] = "America/New_York"        # "exported_at" is UTC wherever the user is
time.tzset()

META = {
    "id": "P37",
    "title": "Metadata sidecars load back as the part's metadata with its provenance",
    "statement": "Exporting a solid, surface or object that carries metadata writes one sidecar, at the conventional path beside the geometry file or at the path asked for, from which `load_metadata_yaml` returns exactly that metadata (tuples as lists) and a provenance block with the version, the UTC time, the source DSL file and command and the SHA-256 of the DSL file or else of the geometry. A part without metadata gets no sidecar, and exporting changes neither the part nor the geometry file that would be written without a sidecar. Metadata that cannot be written leaves an earlier sidecar as it was.",
    "over": ["inputs", "histories"],
    "forall": "every metadata value of the grid at every place and depth, every file name, directory, source and content length of the grids, every history of exports to one directory to depth 3 (4)",
    "why": "A sidecar goes wrong only for particular values (tuples, numpy numbers, text that looks like another type), particular names and particular histories; the suite writes plain dictionaries of a mocked part.",
    "files": ["src/yapcad/io/meta_yaml.py", "src/yapcad/io/stl.py", "src/yapcad/io/step.py"],
    "mech": [["writing and provenance", "io/meta_yaml.py:dump_metadata_yaml"], ["reading", "io/meta_yaml.py:load_metadata_yaml"], ["the path", "io/meta_yaml.py:sidecar_path_for"], ["export with a sidecar", "io/stl.py:write_stl_with_meta"], ["export with a sidecar", "io/step.py:write_step_with_meta"]],
    "technique": "explicit enumeration of metadata trees, file layouts and export histories against the real exporters, every sidecar compared with an independent model of what it must hold",
    "note": "text with U+0085, which PyYAML itself does not keep, is left out; numbers of numpy types that are no Python numbers are refused",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


class Str(str):
    pass


VALUES = {
    "none": lambda: None, "true": lambda: True, "false": lambda: False, "zero": lambda: 0, "int": lambda: -17,
    "big": lambda: 10 ** 30, "float": lambda: 0.1, "third": lambda: 1 / 3, "whole": lambda: 3.0, "e20": lambda: 1e20,
    "e-7": lambda: 1e-07, "inf": lambda: float("inf"), "-inf": lambda: float("-inf"), "-0": lambda: -0.0,
    "npf": lambda: __import__("numpy").float64(2.5), "strsub": lambda: Str("sub"),
    "list": lambda: [], "dict": lambda: {}, "pair": lambda: (1, 2.5), "nested": lambda: ([(1,)], {"k": (2, "x")}),
    "shared": lambda: (lambda x: [x, x])([1, 2]), "sharedd": lambda: (lambda x: {"a": x, "b": (x,)})({"q": 1}),
}
TEXT = ["", " ", "plain", "two words", " lead", "trail ", "yes", "No", "on", "null", "~", "true", "1", "1.0", "1e3",
        "0x10", "0o17", "017", "1_000", "12:30:45", "2024-01-01", "2024-01-01T00:00:00Z", ".5", "+1", "-", "---", "...",
        "- x", "? y", "a: b", "a:", ": b", "# c", "a #b", "%d", "@x", "`q`", "!tag", "!!python/tuple", "&a", "*a", "{", "}",
        "[", "]", "{a: 1}", ",", "|", ">", '"', "'", "it's", '"q"', "=", "<<", "\n", "a\nb", "a\n\nb\n", "\ta", "a\tb",
        "\r", "a\r\nb", "\\", "\\n", "\x00", "\x07", "\x7f", "\u00e9", "\u00b5m", "\u4e2d\u6587", "\U0001f600", "\u2028",
        "\ufeff", "x" * 200, "long words " * 30, "end with spaces   \nnext"]
PLACES = ["top", "sub", "item", "deep", "two"]


def value(name):
    return VALUES[name]() if name in VALUES else TEXT[name]


def place(where, v):
    base = {"schema": "metadata-namespace-v1.1", "entityId": "e-1", "tags": ["a"], "layer": "default"}
    if where == "top":
        base["v"] = v
    elif where == "sub":
        base["material"] = {"name": v, "grade": "T6"}
    elif where == "item":
        base["list"] = [v, "after", v]
    elif where == "deep":
        base["assembly"] = {"datums": [{"id": "d", "at": (0, (v, [v]))}], "x": 1}
    elif where == "two":
        base = {"only": v}
    else:
        base[where] = v
    return base


def plain(v):
    """The data a sidecar must give back."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    for t in (str, int, float):
        if isinstance(v, t):
            return t(v)
    raise TypeError(v)


def typed(v):
    """With the types, so that 1, 1.0, True and "1" differ."""
    if isinstance(v, dict):
        return ("d", tuple(sorted((repr(typed(k)), typed(x)) for k, x in v.items())))
    if isinstance(v, list):
        return ("l", tuple(map(typed, v)))
    return (type(v).__name__, repr(v))


SCRATCH = {}


def scratch():
    pid = os.getpid()
    if pid not in SCRATCH:
        SCRATCH[pid] = (tempfile.mkdtemp(prefix="vfp37-"), [0])
        import atexit
        from multiprocessing.util import Finalize
        d = SCRATCH[pid][0]
        Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    top, n = SCRATCH[pid]
    n[0] += 1
    d = os.path.join(top, str(n[0]))
    os.mkdir(d)
    return d


class Part:
    def __init__(self, attr, meta):
        setattr(self, attr, meta)


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def check_sidecar(path, meta, t0, geo=None, dsl=None, command=None):
    """One written sidecar against the metadata and its sources."""
    import yapcad
    from yapcad.io.meta_yaml import load_metadata_yaml
    t1 = time.time()
    got = load_metadata_yaml(path)
    with open(path, encoding="utf-8") as f:
        require(typed(got) == typed(yaml.safe_load(f)), "load_metadata_yaml does not return what {} holds", os.path.basename(path))
    require(isinstance(got, dict), "the sidecar holds a {}", type(got).__name__)
    prov = got.pop("_provenance", None)
    want = plain({k: v for k, v in meta.items() if k != "_provenance"})
    require(typed(got) == typed(want), "the sidecar loads as {}, the part carries {}", got, want)
    require(isinstance(prov, dict), "the sidecar has no provenance")
    stamp = prov.pop("exported_at", "")
    when = datetime.datetime.strptime(stamp, "%Y-%m-%dT%H:%M:%SZ").replace(tzinfo=datetime.timezone.utc).timestamp()
    require(t0 - 1 <= when <= t1 + 1, "exported at {}, which is {:.0f} s off", stamp, when - t0)
    expect = {"yapcad_version": getattr(yapcad, "__version__", "unknown")}
    if dsl:
        expect["source_dsl"] = dsl
        if os.path.exists(dsl):
            expect["source_dsl_sha256"] = sha(dsl)
    elif geo and os.path.exists(geo):
        expect["geometry_sha256"] = sha(geo)
    if command:
        expect["source_command"] = command
    require(prov == expect, "the provenance is {}, not {}", prov, expect)


def judge_value(case):
    where, name, attr = case
    from yapcad.io.meta_yaml import dump_metadata_yaml
    meta = place(where, value(name))
    keep = copy.deepcopy(meta)
    d = scratch()
    geo = os.path.join(d, "part.step")
    Path(geo).write_bytes(b"ISO")
    t0 = time.time()
    out = dump_metadata_yaml(Part(attr, meta), geo)
    require(out == os.path.realpath(os.path.join(d, "part.meta.yaml")), "the sidecar was written to {}", out)
    require(repr(keep) == repr(meta), "exporting changed the metadata to {}", meta)
    check_sidecar(out, meta, t0, geo)
    require(sorted(os.listdir(d)) == ["part.meta.yaml", "part.step"], "the export left {}", sorted(os.listdir(d)))
    require(Path(geo).read_bytes() == b"ISO", "the geometry file was changed")
    shutil.rmtree(d)
    return Out("value " + where, [h((where, repr(keep)))], 2)


KEYS = ["plain", "with space", "1", "yes", "a: b", "#k", "", "\u00e9", "- k", "k\nl", "{k}", "schema", "entityId", "timestamp",
        "tags", "layer", "_provenance", "provenance", 1, 1.5, True, None]


def judge_key(case):
    i, j = case
    from yapcad.io.meta_yaml import dump_metadata_yaml
    meta = {KEYS[i]: "first", KEYS[j]: {KEYS[i]: 1}}
    d = scratch()
    geo = os.path.join(d, "k.stl")
    t0 = time.time()
    out = dump_metadata_yaml(Part("meta", meta), geo)
    check_sidecar(out, meta, t0, geo)
    shutil.rmtree(d)
    return Out("key", [h((i, j))], 1)


NAMES = ["part.step", "part.stl", "part", "part_CURRENT.step", "part.STEP", "my part.stl", "\u00e9t\u00e9.stl", "a-b_c.stp", "step.step",
         "stl", "x.y", "p.tar.stl", "part.meta.stl", "sub/part.step", "sub dir/deep/p.stl", "dotted.d/p.stl", "v1.2/part.step"]


def stem(name):
    """The file name up to its first dot (the names above start with none)."""
    return name.split(".", 1)[0]


def judge_path(case):
    name, form, explicit, exists = case
    from yapcad.io.meta_yaml import dump_metadata_yaml, sidecar_path_for
    d = scratch()
    full = os.path.join(d, name)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if exists:
        Path(full).write_bytes(name.encode())
    given = full if form == "abs" else name
    given = Path(given) if form == "path" else given
    cwd = os.getcwd()
    os.chdir(d)
    try:
        want = os.path.join(os.path.dirname(full), stem(os.path.basename(name)) + ".meta.yaml")
        conv = sidecar_path_for(given)
        require(os.path.abspath(str(conv)) == want, "sidecar_path_for({!r}) is {}", str(given), conv)
        require(not os.path.exists(want), "sidecar_path_for wrote a file")
        kw = {}
        if explicit:
            want = os.path.join(d, "custom", "side.v2.yaml") if explicit == "abs" else os.path.join(d, "side.v2.yaml")
            os.makedirs(os.path.dirname(want), exist_ok=True)
            kw["yaml_path"] = want if explicit == "abs" else "side.v2.yaml"
        before = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
        meta = {"entityId": "p", "at": (1, 2)}
        t0 = time.time()
        out = dump_metadata_yaml(Part("_metadata", meta), given, **kw)
    finally:
        os.chdir(cwd)
    require(out == os.path.realpath(want), "the sidecar of {!r} was written to {}, not {}", str(given), out, want)
    after = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
    require(after - before == {want} and before <= after, "the export of {!r} made {}", str(given), sorted(after - before))
    check_sidecar(want, meta, t0, full)
    shutil.rmtree(d)
    return Out("path", [h(case)], 2)


LENGTHS = [0, 1, 63, 64, 65535, 65536, 65537, 131072, 200001]


def judge_prov(case):
    geo_len, dsl_kind, dsl_len, command = case
    from yapcad.io.meta_yaml import dump_metadata_yaml
    d = scratch()
    geo, dsl = os.path.join(d, "part.stl"), os.path.join(d, "part.dsl")
    if geo_len is not None:
        Path(geo).write_bytes(bytes(i * 7 % 251 for i in range(geo_len)))
    if dsl_kind == "file":
        Path(dsl).write_bytes(b"\r\n" + bytes(i * 5 % 241 for i in range(dsl_len)))
    given = {"none": None, "empty": "", "file": dsl, "missing": dsl}[dsl_kind]
    meta = {"entityId": "p"}
    t0 = time.time()
    out = dump_metadata_yaml(Part("metadata", meta), geo, source_dsl=given, source_command=command)
    check_sidecar(out, meta, t0, geo, given, command)
    shutil.rmtree(d)
    return Out("provenance", [h(case)], 1)


EVENTS = ["a.step", "a.stl", "b.step", "long", "none", "empty", "bad"]


def judge_hist(case):
    """Exports one after another: each sidecar holds the latest writable metadata of its part."""
    from yapcad.io.meta_yaml import dump_metadata_yaml
    d = scratch()
    model = {}
    for n, ev in enumerate(case):
        name = ev if ev in ("a.step", "a.stl", "b.step") else "a.step"
        meta = {"entityId": "e%d" % n, "n": (n,)}
        if ev == "long":
            meta["text"] = "y" * 500
        if ev == "bad":
            meta["x"] = [1, object()]
        part = Part("_metadata", {} if ev == "empty" else None if ev == "none" else meta)
        t0 = time.time()
        side = os.path.join(d, name.split(".")[0] + ".meta.yaml")
        try:
            out = dump_metadata_yaml(part, os.path.join(d, name), source_command="c%d" % n)
        except Exception:
            require(ev == "bad", "export {} of {} was refused", ev, n)
            out = None
        if ev in ("none", "empty", "bad"):
            require(out is None, "{} gave the sidecar {}", ev, out)
        else:
            require(out == os.path.realpath(side), "the sidecar was written to {}", out)
            model[side] = (meta, t0, n)
        require(sorted(os.listdir(d)) == sorted(map(os.path.basename, model)), "after {} the directory holds {}", case[:n + 1], sorted(os.listdir(d)))
        for p, (m, t, k) in model.items():
            check_sidecar(p, m, t, None, None, "c%d" % k)
    shutil.rmtree(d)
    return Out("history", [h(case[:n + 1]) for n in range(len(case))], len(case))


def build(shape, k):
    from yapcad import geom3d_util as u
    from yapcad.geom import point
    from yapcad.geom3d import poly2surfaceXY
    if shape == "prism":
        return u.prism(k, 2 * k, 3 * k)
    if shape == "cone":
        return u.conic(k, k / 2, 2 * k)
    return poly2surfaceXY([point(0, 0), point(k, 0), point(k, k), point(0, 0)])[0]


def dress(part, shape, how):
    from yapcad import metadata as m
    surf = shape == "surface"
    get, put = (m.get_surface_metadata, m.set_surface_metadata) if surf else (m.get_solid_metadata, m.set_solid_metadata)
    if how == "none":
        return None
    if how == "emptied":
        put(part, {})
        return None
    if how == "plain":
        meta = {"schema": "metadata-namespace-v1.1", "entityId": "q", "centre": (1, 2, 3)}
        put(part, meta)
        return meta
    meta = get(part, create=True)
    if how == "rich":
        m.add_tags(meta, ["a", "b"])
        m.set_material(meta, name="PLA", grade="x")
        m.set_layer(meta, "L")
        m.add_bolt_pattern(meta, id="r", ring="radial", R_mm=5.5, z_mm=1.0, count=3)
        m.set_operation(meta, kind="subtract", target_filter=["hull"], priority=3)
    return meta


def judge_export(case):
    shape, k, how, fmt, emit, name, dsl_kind, command = case
    from yapcad.io import step, stl
    part = build(shape, k)
    meta = dress(part, shape, how)
    keep = repr(part)
    d = scratch()
    dsl = os.path.join(d, "src.dsl")
    if dsl_kind == "file":
        Path(dsl).write_bytes(b"module x;\n")
    given = {"none": None, "file": dsl, "missing": dsl}[dsl_kind]
    ext = "step" if fmt == "step" else "stl"
    geo, ref = os.path.join(d, "part." + ext), os.path.join(d, "ref." + ext)
    kw = {} if fmt == "step" else {"binary": fmt == "binary"}
    if name:
        kw["name"] = name
    before = set(os.listdir(d))
    t0 = time.time()
    fn, plainfn = (step.write_step_with_meta, step.write_step) if fmt == "step" else (stl.write_stl_with_meta, stl.write_stl)
    out = fn(part, geo, source_dsl=given, source_command=command, emit_sidecar=emit, **kw)
    require(repr(part) == keep, "exporting the {} with {} metadata changed it", shape, how)
    made = set(os.listdir(d)) - before
    want = {"part." + ext} | ({"part.meta.yaml"} if emit and meta else set())
    require(made == want, "{} export of a {} with {} metadata (emit {}) made {}", fmt, shape, how, emit, sorted(made))
    plainfn(part, ref, **kw)

    def body(p):
        with open(p, "rb") as f:
            return [ln for ln in f.read().split(b"\n") if b"FILE_NAME" not in ln]
    require(body(geo) == body(ref), "the {} file with a sidecar differs from the one without", fmt)
    if emit and meta:
        require(out == os.path.realpath(os.path.join(d, "part.meta.yaml")), "the sidecar was reported as {}", out)
        check_sidecar(out, meta, t0, geo, given, command)
    else:
        require(out is None, "no sidecar, but {} was returned", out)
    shutil.rmtree(d)
    return Out("export " + fmt, [h(case)], 2)


def judge_missing(case):
    (name,) = case
    from yapcad.io.meta_yaml import load_metadata_yaml
    d = scratch()
    p = os.path.join(d, "x.meta.yaml")
    if name == "absent":
        try:
            load_metadata_yaml(p)
        except FileNotFoundError:
            got = "refused"
        require(got == "refused", "an absent sidecar loaded")
    else:
        text, want = {"empty": ("", {}), "comment": ("# nothing\n", {}), "v1.0": ("schema: metadata-namespace-v1.0\nid: 5\nat: [1, 2.5]\n", {"schema": "metadata-namespace-v1.0", "id": 5, "at": [1, 2.5]}),
                      "utf8": ("name: \u00e9\u4e2d\n", {"name": "\u00e9\u4e2d"}), "alias": ("a: &x [1]\nb: *x\n", {"a": [1], "b": [1]})}[name]
        Path(p).write_text(text, encoding="utf-8")
        for given in (p, Path(p)):
            require(typed(load_metadata_yaml(given)) == typed(want), "{!r} loads as {}", text, load_metadata_yaml(given))
    shutil.rmtree(d)
    return Out("load", [h(name)], 1)


def run(ctx):
    ctx.assumptions.append("PyYAML's own reader is the reference for what a sidecar's text means")
    names = sorted(VALUES) + list(range(len(TEXT)))
    attrs = ("_metadata", "metadata", "meta")
    places = PLACES + ["schema", "entityId", "timestamp", "tags", "layer"]
    values = [(w, n, a) for w in places for n in names for a in (attrs if ctx.thorough else attrs[:1])]
    keys = [(i, j) for i in range(len(KEYS)) for j in range(len(KEYS))]
    paths = list(itertools.product(NAMES, ("abs", "rel", "path"), (None, "abs", "rel"), (True, False)))
    paths += [(".".join(n), "abs", None, True) for k in ctx.pick((2, 3), (2, 3, 4, 5)) for n in itertools.product(("part", "p", "s", "step"), repeat=k)]
    prov = [(g, k, n, c) for g in [None] + LENGTHS for k in ("none", "empty", "missing") for n in (0,) for c in (None, "", "MAIN")]
    prov += [(g, "file", n, c) for g in (None, 10) for n in LENGTHS for c in (None, "", "MAIN")]
    hist = [x for n in range(1, ctx.pick(3, 4) + 1) for x in itertools.product(EVENTS, repeat=n)]
    export = [x for x in itertools.product(("prism", "cone", "surface"), ctx.pick((2.0,), (0.5, 2.0, 30.0)), ("none", "emptied", "plain", "id", "rich"), ("step", "binary", "ascii"),
                                           (True, False), ("", "Nm"), ("none", "file", "missing"), (None, "MAIN"))]
    ctx.explore(judge, [("value", values), ("key", keys), ("path", paths), ("prov", prov), ("hist", hist), ("export", export),
                        ("missing", [(x,) for x in ("absent", "empty", "comment", "v1.0", "utf8", "alias")])], batch=24)
