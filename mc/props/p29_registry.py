"""P29: datum lookups answer from the right source, whatever was asked before."""
import itertools
import json
import os
import tempfile

from mc.core import Out, h, require
from mc.props.p21_mates import DIRS, angle, datum, unit

META = {
    "id": "P29",
    "title": "Datum lookups answer from the right source whatever was asked before",
    "statement": "The datum registry answers each lookup with the datum of the source it names: a registered source, a datum file, a DSL file's sidecar, or the part a loaded file describes, exactly as registered or written in the file. No history of lookups, failed lookups, registrations, reloads and late-appearing files lets one source shadow or alter another, hides good datums behind malformed ones, or exposes the registry's own tables to the caller. A part refuses two datums of one name and reports its suspicious duplicates.",
    "over": ["inputs", "histories"],
    "forall": "every history of registry operations up to the stated depth over files, sidecars, aliases and registrations; every datum form of the file grid; every pair of datums of a part",
    "why": "The registry is global state that the suite does not exercise; wrong answers need a failed lookup first, a colliding part name, or a malformed neighbour in the file.",
    "files": ["src/yapcad/assembly/datum_registry.py", "src/yapcad/assembly/datum.py"],
    "mech": [["lookup and loading", "assembly/datum_registry.py:DatumRegistry"], ["datum parsing", "assembly/datum_registry.py:_datum_from_dict"], ["duplicate report", "assembly/datum.py:PartDefinition.validate_datums"]],
    "technique": "explicit enumeration of registry operation histories on the real registry against a model of its sources",
    "note": "all histories of 25 operations to depth 3 (quick) / 4 (thorough)",
}

ROOT = None


def entry(x):
    return {"type": "POINT", "origin": [x, 0, 0]}


BAD = {
    "noplane": {"type": "PLANE", "origin": [0, 0, 0]},
    "notype": {"type": "SPLINE", "origin": [0, 0, 0]},
    "notdict": "POINT",
    "zero": {"type": "AXIS", "origin": [0, 0, 0], "direction": [0, 0, 0]},
}
FILES = {
    "a.json": {"part_name": "PA", "datums": dict({"d1": entry(1), "d2": entry(2)}, **BAD)},
    "b.json": {"part_name": "PA", "datums": {"d1": entry(11)}},
    "c.datums.json": {"part_name": "PC", "datums": {"d1": entry(21), "bad": None, "d3": entry(23)}},
    "c.dsl": "module c",
    "e.dsl": "module e",
    "f.json": "{ not json",
    "g.json": ["d1"],
    "late.json": {"part_name": "PL", "datums": {"d1": entry(31)}},
}
GOOD = {"a.json": {"d1": 1, "d2": 2}, "b.json": {"d1": 11}, "c.dsl": {"d1": 21, "d3": 23}, "e.dsl": {}, "f.json": {}, "g.json": {}, "late.json": {"d1": 31}}
PARTOF = {"a.json": "PA", "b.json": "PA", "c.dsl": "PC", "late.json": "PL"}
SOURCES = ["a.json", "b.json", "c.dsl", "e.dsl", "f.json", "g.json", "late.json", "PA", "PC", "PL", "X"]
NAMES = ["d1", "d2", "d3", "d9", "noplane", "notype", "notdict", "zero", "bad"]


def put(name):
    v = FILES[name]
    with open(os.path.join(ROOT, name), "w") as f:
        f.write(v if isinstance(v, str) else json.dumps(v))


def fresh():
    global ROOT
    from yapcad.assembly.datum_registry import DatumRegistry

    if ROOT is None:
        import atexit
        import shutil

        d = tempfile.TemporaryDirectory(prefix="p29")
        globals()["_keep"] = d
        ROOT = d.name
        for n in FILES:
            put(n)
        DatumRegistry.add_search_path(ROOT)
    DatumRegistry.clear()
    late = os.path.join(ROOT, "late.json")
    if os.path.exists(late):
        os.remove(late)
    return DatumRegistry


class Src:
    def __init__(self, datums, part):
        self.datums, self.part = dict(datums), part


class Model:
    def __init__(self):
        self.src, self.late = {}, False

    def load(self, s):
        if s in self.src:
            return
        if s in GOOD and (s != "late.json" or self.late):
            x = Src(GOOD[s], PARTOF.get(s))
            self.src[s] = x
            if x.part and x.part not in self.src:
                self.src[x.part] = x
            return
        for x in list(self.src.values()):
            if x.part == s:
                self.src[s] = x
                return


OPS = (
    [("ask", s) for s in SOURCES]
    + [("reg", "PA", (("d1", 101),)), ("reg", "a.json", (("d2", 102), ("d9", 109))), ("reg", "X", (("d1", 103),)), ("reg", "PL", (("d3", 104),))]
    + [("datum", "PA", "d9", 201), ("datum", "a.json", "d1", 202), ("datum", "X", "d2", 203), ("datum", "c.dsl", "d9", 204), ("datum", "late.json", "d3", 205)]
    + [("part", "PC", (("d1", 301),)), ("write",), ("clear",), ("poke", "a.json"), ("list", "PA")]
)


def pt(name, x):
    return datum("point", (x, 0, 0), (0, 0, 1), name=name)


def answer(R, s):
    """What the registry says about source s: dict of x coordinates, or None."""
    try:
        got = R.get_datums_for_source(s)
    except KeyError:
        got = None
    names = R.list_datums(s)
    require(sorted(names) == sorted(got or {}), "list_datums(%s) = %r but the source has %r" % (s, names, got and sorted(got)))
    for n in NAMES:
        try:
            d = R.get_datum(s, n)
        except KeyError:
            require(n not in (got or {}), "%s.%s cannot be looked up" % (s, n))
            continue
        require(got is not None and n in got and d == got[n], "%s.%s is answered although the source has %r" % (s, n, got and sorted(got)))
    if got is None:
        return None
    for n, d in got.items():
        require(d.name == n, "%s.%s is called %s" % (s, n, d.name))
    return {n: d.origin[0] for n, d in got.items()}


def judge(kind, case):
    return globals()["judge_" + kind](case)


def judge_hist(ops):
    from yapcad.assembly.datum import PartDefinition

    R, m, states = fresh(), Model(), []
    for i, op in enumerate(ops):
        what = "after %r" % (list(ops[: i + 1]),)
        k = op[0]
        if k == "ask":
            m.load(op[1])
            want = dict(m.src[op[1]].datums) if op[1] in m.src else None
            got = answer(R, op[1])
            require(got == want, "%s: source %s answers %r, expected %r" % (what, op[1], got, want))
        elif k == "reg":
            given = {n: pt(n, x) for n, x in op[2]}
            R.register_source(op[1], given)
            given["intruder"] = pt("intruder", 999)
            m.src[op[1]] = Src(dict(op[2]), op[1])
        elif k == "datum":
            R.register_datum(op[1], pt(op[2], op[3]))
            m.load(op[1])
            m.src.setdefault(op[1], Src({}, op[1])).datums[op[2]] = op[3]
        elif k == "part":
            p = PartDefinition(name=op[1])
            for n, x in op[2]:
                p.add_datum(pt(n, x))
            R.register_part(p)
            m.src[op[1]] = Src(dict(op[2]), op[1])
        elif k == "write":
            put("late.json")
            m.late = True
        elif k == "clear":
            R.clear()
            m.src = {}
        elif k == "list":
            R.list_datums(op[1])
            m.load(op[1])
        else:  # the caller scribbles over what it was given
            m.load(op[1])
            try:
                R.get_datums_for_source(op[1]).clear()
            except KeyError:
                pass
        known = set(R.list_sources())
        require(set(m.src) <= known, "%s: sources %r are not listed in %r" % (what, sorted(set(m.src) - known), sorted(known)))
        for s in sorted(m.src):
            got = answer(R, s)
            require(got == m.src[s].datums, "%s: source %s answers %r, expected %r" % (what, s, got, m.src[s].datums))
        states.append(h([(s, sorted(x.datums.items())) for s, x in sorted(m.src.items())]))
    return Out("hist", states, len(ops))


def judge_form(case):
    """One datum as written in a file."""
    kind, tcase, four, di, extra = case
    R = fresh()
    d = [float(c) for c in DIRS[di]]
    pad = lambda v, w: list(v) + ([w] if four else [])
    o = [1.5, -2, 3]
    e = {"type": kind.upper() if tcase else kind, "origin": pad(o, 1)}
    if kind == "axis":
        e["direction"] = pad(d, 0)
    elif kind in ("plane", "circle"):
        e["normal"] = pad(d, 0)
    elif kind == "frame":
        e["x_axis"], e["y_axis"] = pad(d, 0), pad([d[1] + 1, -d[0], 2], 0)
    if kind == "circle":
        e["radius"] = 2.5
    if extra:
        e["description"] = "drilled"
    else:
        if kind == "point":
            del e["type"]
        if di % 2:
            del e["origin"]
            o = [0, 0, 0]
    path = os.path.join(ROOT, "form_%d.json" % os.getpid())
    with open(path, "w") as f:
        json.dump({"part_name": "PF", "manufacturer": "acme", "datums": {"x": e}}, f)
    for src in (path, os.path.basename(path)):
        R.clear()
        got = R.get_datum(src, "x")
        require(got.datum_type.value == kind and got.name == "x", "%r read as %r" % (e, got))
        require(list(got.origin) == [float(c) for c in o] + [1], "%r read with origin %r" % (e, got.origin))
        for f in ("direction", "normal", "x_axis", "y_axis"):
            v = getattr(got, f)
            require((v is None) == (f not in e), "%r read with %s=%r" % (e, f, v))
            if v is not None:
                require(list(v) == [float(c) for c in e[f][:3]] + [0], "%r read with %s=%r" % (e, f, v))
        require(got.radius == e.get("radius") and got.description == e.get("description", ""), "%r read as %r" % (e, got))
        require(R.get_datum("PF", "x") == got, "the part's name does not lead to its datum")
    return Out("form", [], 2)


def judge_paths(order):
    """The first search path that has the file wins; absolute paths always do."""
    from yapcad.assembly import datum_registry as D

    R = fresh()
    with tempfile.TemporaryDirectory(prefix="p29p") as t:
        name = "z_%s.json" % os.path.basename(t)
        for sub, x in (("one", 1), ("two", 2), ("three", 3)):
            os.mkdir(os.path.join(t, sub))
            if sub != "three":
                with open(os.path.join(t, sub, name), "w") as f:
                    json.dump({"datums": {"d": entry(x)}}, f)
        for sub in order:
            R.add_search_path(os.path.join(t, sub))
        want = [x for x in order if x != "three"]
        try:
            got = R.get_datum(name, "d").origin[0]
        except KeyError:
            got = None
        require(got == ({"one": 1, "two": 2}[want[0]] if want else None), "search order %r answered %r" % (order, got))
        for sub, x in (("one", 1), ("two", 2)):
            require(R.get_datum(os.path.join(t, sub, name), "d").origin[0] == x, "absolute path of %s answered another file" % sub)
    return Out("paths", [], 3)


TREE = [("one", "{n}"), ("one", "sub/{n}"), ("two", "{n}"), ("two", "sub/{n}"), ("here", "{n}"), ("here", "sub/{n}")]


def judge_tree(case):
    """Relative names in search paths and the working directory: which of the
    six places have the file, order of the paths, kind of file"""
    have, order, ext = case
    R = fresh()
    back = os.getcwd()
    keep = list(R._get_instance()._search_paths) if hasattr(R, "_get_instance") else None
    with tempfile.TemporaryDirectory(prefix="p29t") as t:
        t = os.path.realpath(t)
        name = "t_%s%s" % (os.path.basename(t), ext)
        for top in ("one", "two", "here"):
            os.makedirs(os.path.join(t, top, "sub"))
        for i, (top, rel) in enumerate(TREE):
            if have >> i & 1:
                path = os.path.join(t, top, rel.format(n=name))
                data = path
                if ext == ".dsl":
                    with open(path, "w") as f:
                        f.write("module x")
                    data = path[:-4] + ".datums.json"
                with open(data, "w") as f:
                    json.dump({"datums": {"d": entry(i + 1)}}, f)
        for sub in order:
            R.add_search_path(os.path.join(t, sub))
        os.chdir(os.path.join(t, "here"))
        try:
            for ask in ("{n}", "sub/{n}", "./sub/../{n}", "sub/./{n}"):
                ask = ask.format(n=name)
                rel = os.path.normpath(ask)
                want = None
                for top in tuple(order) + ("here",):
                    i = TREE.index((top, rel.replace(name, "{n}")))
                    if have >> i & 1:
                        want = i + 1
                        break
                try:
                    got = R.get_datum(ask, "d").origin[0]
                except KeyError:
                    got = None
                require(got == want, "search paths %r with the files %r: %r is answered from file %r, not %r" % (order, [x for i, x in enumerate(TREE) if have >> i & 1], ask, got, want))
        finally:
            os.chdir(back)
            if keep is not None:
                R._get_instance()._search_paths[:] = keep
    return Out("tree", [], 4)


def judge_part(case):
    """Duplicates of a part's datums."""
    from yapcad.assembly.datum import PartDefinition

    (k1, o1, d1, s1), (k2, o2, d2, s2) = case
    p = PartDefinition("p")
    a, b = datum(k1, o1, DIRS[d1], name="a", scale=s1), datum(k2, o2, DIRS[d2], name="b", scale=s2)
    p.add_datum(a)
    p.add_datum(b)
    try:
        p.add_datum(datum("point", (9, 9, 9), (0, 0, 1), name="a"))
        require(False, "a second datum of the same name was accepted")
    except ValueError:
        pass
    require(p.get_datum("a") is a and p.get_datum("b") is b and sorted(p.datums) == ["a", "b"], "the refused datum replaced the first")
    same = o1 == o2
    ang = angle(DIRS[d1], DIRS[d2])
    par = min(ang, 180 - ang)
    issues = p.validate_datums()
    dup = [i for i in issues if "identical" in i]
    over = [i for i in issues if "parallel" in i]
    require(bool(dup) == (same and k1 == k2), "%r: reported %r" % (case, issues))
    if k1 in ("axis", "plane") and k2 in ("axis", "plane"):
        if not 0 < par < 0.2:
            require(bool(over) == (same and par == 0), "%r: reported %r" % (case, issues))
    else:
        require(not over, "%r: reported %r" % (case, issues))
    return Out("part", [], 2)


def run(ctx):
    depth = ctx.pick(3, 4)
    kinds = ["point", "axis", "plane", "circle", "frame"]
    ds = [(k, o, d, s) for k in kinds for o in ((0, 0, 0), (1, 2, 3)) for d in (range(26) if ctx.thorough else (0, 4, 12, 13, 14, 16, 22)) for s in (1.0, 6.0)]
    ctx.explore(judge, [
        ("hist", (o for k in range(1, depth + 1) for o in itertools.product(OPS, repeat=k)), 128),
        ("form", itertools.product(kinds, (0, 1), (0, 1), range(len(DIRS)), (0, 1)), 64),
        ("paths", [o for k in range(0, 4) for o in itertools.permutations(("one", "two", "three"), k)], 4),
        ("tree", itertools.product(range(64), [o for k in range(0, 3) for o in itertools.permutations(("one", "two"), k)], (".json", ".dsl")), 16),
        ("part", itertools.product(ds, ds), 256),
    ])
    ctx.notes["history_depth"] = depth
    ctx.assumptions.append("files are not rewritten while their source is loaded (the registry caches)")
