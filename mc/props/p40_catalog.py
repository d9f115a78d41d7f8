"""P40: fastener lookups return what the first catalog on the search path says."""
import copy
import itertools
import math
import os
import shutil
import tempfile

from mc.core import Out, h, require as _require

META = {
    "id": "P40",
    "title": "Fastener lookups return what the governing catalog says",
    "statement": "A fastener lookup reads the catalog given by path, or else the first one found in the directories of `YAPCAD_FASTENER_DATA` in order, the user's directory and the bundled data; sizes are found whatever their case, and bolt and nut data are those of the size and tolerance class asked for. What callers do to a returned catalog or entry never changes a later lookup, and `clear_cache` makes changes of files and environment visible. Unknown series, sizes, classes, missing parts and malformed catalogs are errors.",
    "over": ["inputs", "histories"],
    "forall": "every presence pattern of catalogs over the search path with every lookup; every history of lookups, edits of results, file changes, environment changes and cache clearings to length 3 (4); every size and class of the bundled catalogs",
    "why": "A cached dictionary that callers share poisons later lookups only after a particular edit, and the search order shows only with several catalogs present; the suite does single lookups in the bundled data.",
    "files": ["src/yapcad/fasteners/catalog.py", "src/yapcad/fasteners/builders.py", "src/yapcad/fasteners/__init__.py"],
    "mech": [["search and cache", "fasteners/catalog.py:load_catalog"], ["lookups", "fasteners/catalog.py:get_thread_data"], ["bolt and nut data", "fasteners/catalog.py:get_bolt_data"]],
    "technique": "explicit-state exploration of cache, file and environment histories on the real catalog module against a reference model of search path and cache",
    "note": "catalogs live in scratch directories; HOME points into them",
}


def require(ok, text, *a):
    _require(ok, text.format(*a) if a else text)


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


SERIES = ("metric_coarse", "metric_fine", "unified_coarse", "unified_fine")


def size_entry(d, extra=True):
    e = {
        "nominal_diameter": d, "pitch": d / 8, "basic_minor_diameter": d * 0.85, "basic_pitch_diameter": d * 0.9,
        "tolerances": {"6g": {"es": -d / 100, "Td2": d / 50}, "2A": {"allowance": d / 90}, "6H": {"EI": d / 200}, "2B": {"EI": 0.0, "TD1": d / 40}},
    }
    if extra:
        e["hex_bolt"] = {"width_across_flats": 1.7 * d, "head_height": 0.7 * d, "washer_face_diameter": 1.6 * d, "washer_face_thickness": 0.25}
        e["hex_nut"] = {"width_across_flats": 1.7 * d, "thickness": 0.9 * d}
    return e


def catalog(d):
    """A catalog recognisable by its diameter."""
    return {
        "schema_version": "1.0", "standard": "S%g" % d, "thread_series": "x",
        "tolerance_classes": {"6g": {"type": "external"}, "6H": {"type": "internal"}},
        "sizes": {"M8": size_entry(d), "M10": size_entry(d + 1), "m3x": size_entry(d + 2), "#4-40": size_entry(d + 3), "BARE": size_entry(d + 4, False)},
    }


def dump(path, data):
    import yaml
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        yaml.safe_dump(data, f)


class World:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="p40_")
        self.old = {k: os.environ.get(k) for k in ("HOME", "YAPCAD_FASTENER_DATA")}
        os.environ["HOME"] = self.dir + "/home"
        os.makedirs(self.dir + "/home")
        os.environ.pop("YAPCAD_FASTENER_DATA", None)

    def __enter__(self):
        from yapcad.fasteners import catalog as c
        c.clear_cache()
        return self

    def __exit__(self, *exc):
        from yapcad.fasteners import catalog as c
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        c.clear_cache()
        shutil.rmtree(self.dir, ignore_errors=True)


def bundled(series):
    import yaml
    import yapcad.fasteners.catalog as c
    p = os.path.join(os.path.dirname(c.__file__), "data", series + ".yaml")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return yaml.safe_load(f)


def strip(c):
    return {k: v for k, v in c.items() if k != "_source_path"}


# ---- search order

def judge_search(case):
    """case = (series, [A, B, user], custom); each 'none' / 'nofile' / 'file'."""
    series, pres, custom, tilde = case
    import yapcad.fasteners as F
    with World() as w:
        dirs = [w.dir + "/a", w.dir + "/b", w.dir + "/home/.config/yapcad/fasteners"]
        expect = None
        for i, (d, p) in enumerate(zip(dirs, pres)):
            if p == "none":
                continue
            os.makedirs(d)
            # a catalog of another series must not be taken
            dump(d + "/other.yaml", catalog(99.0))
            dump(d + "/" + SERIES[(SERIES.index(series) + 1) % 4] + ".yaml", catalog(98.0))
            if p == "file":
                dump(d + "/" + series + ".yaml", catalog(10.0 * (i + 1)))
                if expect is None:
                    expect = catalog(10.0 * (i + 1)), d + "/" + series + ".yaml"
        env = [dirs[0], dirs[1]]
        if tilde:
            os.rename(dirs[0], w.dir + "/home/a") if os.path.isdir(dirs[0]) else None
            if expect is not None and expect[1].startswith(dirs[0] + "/"):
                expect = expect[0], w.dir + "/home/a/" + series + ".yaml"
            env = [" ~/a ", "", dirs[1]]
        os.environ["YAPCAD_FASTENER_DATA"] = ":".join(env)
        F.clear_cache()
        if expect is None and bundled(series) is not None:
            expect = bundled(series), None
        args = ()
        if custom != "none":
            path = w.dir + "/mine.yaml"
            if custom == "file":
                dump(path, catalog(77.0))
                expect = catalog(77.0), path
            else:
                expect = None
            from pathlib import Path
            args = (Path(path),)
        for _ in range(2):
            try:
                got = F.load_catalog(series, *args)
            except FileNotFoundError:
                require(expect is None, "{}: no catalog found, but there is one", case)
                continue
            require(expect is not None, "{}: a catalog was loaded although there is none: {}", case, got.get("_source_path"))
            require(strip(got) == expect[0], "{}: loaded {} (diameter {})", case, got.get("_source_path"), got["sizes"].get("M8", {}).get("nominal_diameter"))
            if expect[1]:
                require(os.path.realpath(got["_source_path"]) == os.path.realpath(expect[1]), "{}: the source is reported as {}", case, got["_source_path"])
            require(F.list_available_sizes(series, *args) == sorted(expect[0]["sizes"]), "{}: sizes {}", case, F.list_available_sizes(series, *args))
            require(F.list_tolerance_classes(series, *args) == sorted(expect[0]["tolerance_classes"]), "{}: classes {}", case, F.list_tolerance_classes(series, *args))
    return Out("search", states=[h(repr(case))], steps=4)


# ---- histories

def mutate(x, depth=0):
    """Change everything reachable in a returned value."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                mutate(x[k])
            else:
                x[k] = -1.0
        x["extra"] = "edited"
        if "M10" in x:
            del x["M10"]
    elif isinstance(x, list):
        x[:] = [None]


OPS = ("load", "thread", "bolt", "nut", "lists", "editfile", "envB", "envA", "clear", "custom")


def judge_history(case):
    import yapcad.fasteners as F
    from pathlib import Path
    with World() as w:
        files = {}

        def put(name, d):
            files[name] = catalog(d)
            dump(w.dir + "/" + name + "/metric_coarse.yaml", files[name])
        put("a", 10.0)
        put("b", 20.0)
        put("c", 30.0)
        os.environ["YAPCAD_FASTENER_DATA"] = w.dir + "/a"
        F.clear_cache()
        env = "a"
        cache = {}     # reference cache: None/custom -> catalog contents
        dirs = None    # directories as first seen
        serial = 40.0
        for op in case + ("load", "thread", "bolt", "nut", "lists", "custom"):
            if op == "clear":
                F.clear_cache()
                cache, dirs = {}, None
            elif op in ("envA", "envB"):
                env = op[3].lower()
                os.environ["YAPCAD_FASTENER_DATA"] = w.dir + "/" + env
                F.clear_cache()
                cache, dirs = {}, None
            elif op == "editfile":
                serial += 5
                put(env, serial)
                put("c", serial + 2)
                F.clear_cache()
                cache = {}
            else:
                key = "c" if op == "custom" else env
                want = copy.deepcopy(files[key])
                args = (Path(w.dir + "/c/metric_coarse.yaml"),) if op == "custom" else ()
                if op in ("load", "custom"):
                    got = F.load_catalog("metric_coarse", *args)
                    require(strip(got) == want, "{}: {} after {} gives other contents: {}", case, op, case, strip(got))
                    mutate(got)
                if op in ("thread", "custom"):
                    got = F.get_thread_data("metric_coarse", "m10", None, *args)
                    require(got == want["sizes"]["M10"], "{}: M10 is {}", case, got)
                    mutate(got)
                if op in ("bolt", "custom"):
                    got = F.get_bolt_data("metric_coarse", "M8", "6g", *args)
                    require(got == bolt_ref(want["sizes"]["M8"], "6g"), "{}: the bolt M8 is {}", case, got)
                    mutate(got)
                if op in ("nut", "custom"):
                    got = F.get_nut_data("metric_coarse", "M8", "6H", *args)
                    require(got == nut_ref(want["sizes"]["M8"], "6H"), "{}: the nut M8 is {}", case, got)
                    mutate(got)
                if op in ("lists", "custom"):
                    got = F.list_available_sizes("metric_coarse", *args)
                    require(got == sorted(want["sizes"]), "{}: sizes {}", case, got)
                    mutate(got)
                    got = F.list_tolerance_classes("metric_coarse", *args)
                    require(got == sorted(want["tolerance_classes"]), "{}: classes {}", case, got)
                    mutate(got)
    return Out("history", states=[h(repr(case[:i])) for i in range(1, len(case) + 1)], steps=len(case) + 6)


def bolt_ref(e, cls):
    return {"thread": {"nominal_diameter": e["nominal_diameter"], "pitch": e["pitch"], "basic_minor_diameter": e.get("basic_minor_diameter"),
                       "basic_pitch_diameter": e.get("basic_pitch_diameter"), "tolerance_class": cls, "tolerances": e["tolerances"][cls]},
            "head": e["hex_bolt"]}


def nut_ref(e, cls):
    b = bolt_ref(dict(e, hex_bolt=None), cls)["thread"]
    b["internal"] = True
    return {"thread": b, "body": e["hex_nut"]}


# ---- errors and names

def judge_lookup(case):
    """case = (size, class or None, what)."""
    size, cls, what = case
    import yapcad.fasteners as F
    from pathlib import Path
    cat = catalog(10.0)
    with World() as w:
        path = Path(w.dir + "/c.yaml")
        dump(str(path), cat)
        keys = [k for k in cat["sizes"] if k == size or k == size.upper() or k == size.lower()]
        entry = cat["sizes"][keys[0]] if keys else None
        ok = entry is not None and (cls is None or cls in entry["tolerances"])
        part = {"bolt": "hex_bolt", "nut": "hex_nut"}.get(what)
        if part:
            ok = ok and part in entry
        fn = {"thread": F.get_thread_data, "bolt": F.get_bolt_data, "nut": F.get_nut_data}[what]
        try:
            kw = {} if cls is None else {"tolerance_class": cls}
            got = fn("metric_coarse", size, custom_path=path, **kw)
        except KeyError as e:
            require(not ok, "{}: KeyError {}", case, e)
            return Out("refused", states=[h(repr(case))], steps=1)
        require(ok, "{}: returned {}", case, got)
        cls = cls or {"bolt": "6g", "nut": "6H"}.get(what)
        want = entry if what == "thread" else bolt_ref(entry, cls) if what == "bolt" else nut_ref(entry, cls)
        require(got == want, "{}: {} instead of {}", case, got, want)
    return Out("found", states=[h(repr(case))], steps=1)


BAD = {
    "list": ("[1, 2]", ValueError), "text": ("hello", ValueError), "empty": ("", ValueError),
    "v2": ("schema_version: '2.0'\nsizes: {}\n", ValueError), "v10": ("schema_version: '10.1'\nsizes: {}\n", ValueError),
    "vnum": ("schema_version: 1.0\nsizes: {}\n", ValueError), "vnull": ("schema_version: null\nsizes: {}\n", ValueError),
    "nosizes": ("schema_version: '1.0'\n", ValueError),
    "ok1": ("schema_version: '1.0'\nsizes: {}\n", None), "ok17": ("schema_version: '1.17'\nsizes: {}\n", None), "okdef": ("sizes: {}\n", None),
}


def judge_bad(case):
    name, via = case
    import yapcad.fasteners as F
    from pathlib import Path
    text, exc = BAD[name]
    with World() as w:
        os.makedirs(w.dir + "/a")
        p = w.dir + "/a/metric_coarse.yaml"
        with open(p, "w") as f:
            f.write(text)
        args = ()
        if via == "path":
            args = (Path(p),)
        else:
            os.environ["YAPCAD_FASTENER_DATA"] = w.dir + "/a"
            F.clear_cache()
        for _ in range(2):
            try:
                got = F.load_catalog("metric_coarse", *args)
            except ValueError:
                require(exc is not None, "a catalog with {!r} is refused", text)
            else:
                require(exc is None, "a catalog with {!r} is accepted as {}", text, got)
        for s in ("metric", "", "METRIC_COARSE", "../a/metric_coarse"):
            try:
                F.load_catalog(s, *args)
            except ValueError:
                pass
            else:
                require(False, "the series {!r} is accepted", s)
    return Out("format", states=[h(repr(case))], steps=6)


# ---- bundled data

def judge_bundled(case):
    series, size = case
    import yapcad.fasteners as F
    F.clear_cache()
    data = bundled(series)
    e = data["sizes"][size]
    for s in {size, size.lower(), size.upper()}:
        got = F.get_thread_data(series, s)
        require(got == e, "{} {}: {} instead of {}", series, s, got, e)
    d, p = e["nominal_diameter"], e["pitch"]
    for key, k in (("basic_pitch_diameter", 0.649519), ("basic_minor_diameter", 1.082532)):
        if key in e:
            require(abs(e[key] - (d - k * p)) < 0.012, "{} {}: {} is {} rather than {:.3f}", series, size, key, e[key], d - k * p)
    if "tpi" in e:
        require(abs(p * e["tpi"] - 25.4) < 0.02, "{} {}: {} turns per inch and pitch {}", series, size, e["tpi"], p)
    for part in ("hex_bolt", "hex_nut"):
        b = e.get(part)
        if b:
            require(b["width_across_flats"] > d, "{} {}: {} no wider than the thread", series, size, part)
            require(abs(b["width_across_corners"] - b["width_across_flats"] / math.cos(math.pi / 6)) < 0.25 + 0.02 * d, "{} {}: {} {} across flats, {} across corners", series, size, part, b["width_across_flats"], b["width_across_corners"])
    for cls, t in e["tolerances"].items():
        require(cls in data["tolerance_classes"], "{} {}: the class {} is not defined", series, size, cls)
        ext = data["tolerance_classes"][cls]["type"] == "external"
        if ext and "hex_bolt" in e:
            got = F.get_bolt_data(series, size, cls)
            require(got == bolt_ref(e, cls), "{} {} {}: {}", series, size, cls, got)
        if not ext and "hex_nut" in e:
            got = F.get_nut_data(series, size, cls)
            require(got == nut_ref(e, cls), "{} {} {}: {}", series, size, cls, got)
        if ext:
            require(t.get("es", 0) <= 0 <= t.get("allowance", 0), "{} {} {}: {}", series, size, cls, t)
        else:
            require(t.get("EI", 0) >= 0, "{} {} {}: {}", series, size, cls, t)
    return Out("bundled", states=[h(repr(case))], steps=len(e["tolerances"]) + 3)


def run(ctx):
    P = ("none", "nofile", "file")
    search = [(s, p, c, t) for s in ctx.pick(("metric_coarse", "metric_fine", "unified_coarse"), SERIES) for p in itertools.product(P, repeat=3) for c in ("none", "missing", "file") for t in (False, True)]
    depth = ctx.pick(3, 4)
    hist = [c for n in range(depth + 1) for c in itertools.product(OPS, repeat=n)]
    lookup = [(s, c, w) for s in ("M8", "m8", "M10", "m3x", "M3X", "#4-40", "BARE", "bare", "Bare", "M9", "", "M", "m3X") for c in (None, "6g", "6H", "2A", "2B", "6G", "7g", "") for w in ("thread", "bolt", "nut") if c != ""]
    bad = [(n, v) for n in BAD for v in ("path", "env")]
    bun = []
    for s in SERIES:
        d = bundled(s)
        if d:
            bun += [(s, z) for z in d["sizes"]]
    ctx.assumptions += ["files and environment are changed only together with clear_cache, as its documentation asks"]
    ctx.notes["bounds"] = {"search": len(search), "history_depth": depth, "histories": len(hist), "bundled_sizes": len(bun)}
    ctx.explore(judge, [("search", search), ("history", hist), ("lookup", lookup), ("bad", bad), ("bundled", bun)], batch=20)
