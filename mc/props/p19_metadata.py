"""P19: metadata helpers behave as one record store, whatever the history."""
import copy
import itertools

from mc.core import Out, h, require

META = {
    "id": "P19",
    "title": "Metadata helpers keep one consistent record per entity over any history",
    "statement": "After any sequence of metadata calls on a solid or surface, its record holds exactly what those calls stored: scalar fields keep the last value given and absent arguments change nothing, tags and compliance lists never repeat an entry, and list entries append in order, converted to the documented types. Calls whose enumerated value, required id or vector length is invalid raise and leave the record's entries as they were. An entity keeps one identity from the first time it is asked for, two entities never share a record or an identity, and values passed in are not changed.",
    "over": ["histories", "inputs"],
    "forall": "every sequence of up to 3 of 46 metadata calls (thorough: 4 over the stateful subset) on a solid, a surface and a bare record",
    "why": "Each helper is tested once on an empty record; interactions between helpers and repeated calls are not.",
    "files": ["src/yapcad/metadata.py"],
    "mech": [["record creation", "metadata.py:get_solid_metadata"], ["namespaces", "metadata.py:_ensure_namespace"], ["entry validation", "metadata.py:add_bolt_pattern"]],
    "technique": "bounded exhaustive enumeration of call histories on the real helpers, each step compared with a reference record",
    "note": "46 calls, all sequences of length 3 on three entity kinds",
}

BAD = "bad"


def S(ns, **kw):
    """Set scalar fields of a namespace."""
    def f(m):
        m.setdefault(ns, {}).update(copy.deepcopy(kw))
    return f


def A(ns, field, entry=None, **kw):
    def f(m):
        d = m.setdefault(ns, {})
        d.update(copy.deepcopy(kw))
        l = d.setdefault(field, [])
        if entry is not None:
            l.append(copy.deepcopy(entry))
    return f


def U(path, vals):
    def f(m):
        d = m
        for p in path[:-1]:
            d = d.setdefault(p, {})
        l = d.setdefault(path[-1], [])
        for v in vals:
            if v not in l:
                l.append(v)
    return f


def N(ns, sub, **kw):
    def f(m):
        m.setdefault(ns, {}).setdefault(sub, {}).update(kw)
    return f


# (function, args, kwargs, effect on the reference record)
OPS = [
    ("set_layer", ["top"], {}, lambda m: m.update(layer="top")),
    ("set_layer", [""], {}, lambda m: m.update(layer="default")),
    ("add_tags", [["a"]], {}, U(["tags"], ["a"])),
    ("add_tags", [["b", "a", "b", ""]], {}, U(["tags"], ["b", "a"])),
    ("add_tags", [("c",)], {}, U(["tags"], ["c"])),
    ("set_material", [], {"name": "steel", "density_kg_m3": 7850}, S("material", name="steel", density_kg_m3=7850.0)),
    ("set_material", [], {"name": "pla", "grade": "g", "standard": "s", "source": "x"}, S("material", name="pla", grade="g", standard="s", source="x")),
    ("set_material", [], {}, S("material")),
    ("set_manufacturing", [], {"process": "FDM", "fixtures": ("f", "g")}, S("manufacturing", process="FDM", fixtures=["f", "g"])),
    ("set_manufacturing", [], {"instructions": "i", "layers": {"n": 1}, "postprocessing": ["p"]}, S("manufacturing", instructions="i", layers={"n": 1}, postprocessing=["p"])),
    ("add_design_history_entry", [], {"author": "me", "revision": "A", "notes": "n"}, A("designHistory", "iterations", {"revision": "A", "notes": "n"}, author="me")),
    ("add_design_history_entry", [], {"revision": "B", "timestamp": "t", "tools": ["x"]}, A("designHistory", "iterations", {"revision": "B", "timestamp": "t"}, tools=["x"])),
    ("add_design_history_entry", [], {"source": "s", "context": "c"}, A("designHistory", "iterations", None, source="s", context="c")),
    ("set_mass_constraint", [], {"max_kg": 3}, N("constraints", "mass", max_kg=3.0)),
    ("set_mass_constraint", [], {"max_kg": 0, "target_kg": 2}, N("constraints", "mass", max_kg=0.0, target_kg=2.0)),
    ("set_envelope_constraint", [], {"x_mm": 1, "z_mm": 2}, N("constraints", "envelope", x_mm=1.0, z_mm=2.0)),
    ("set_envelope_constraint", [], {"y_mm": 0}, N("constraints", "envelope", y_mm=0.0)),
    ("add_compliance", [["ISO", "UL"]], {}, U(["constraints", "compliance"], ["ISO", "UL"])),
    ("add_compliance", [["UL", "", "CE", "CE"]], {}, U(["constraints", "compliance"], ["UL", "CE"])),
    ("add_analysis_record", [{"k": 1}], {}, A("analysis", "simulations", {"k": 1})),
    ("add_analysis_record", [{"k": [2]}], {}, A("analysis", "simulations", {"k": [2]})),
    ("set_assembly", [], {"joint_kind": "axial"}, S("assembly", joint_kind="axial")),
    ("set_assembly", [], {"joint_kind": "none", "no_cut": 0}, S("assembly", joint_kind="none", no_cut=False)),
    ("set_assembly", [], {"no_cut": True}, S("assembly", no_cut=True)),
    ("set_assembly", [], {"joint_kind": "revolute", "no_cut": True}, BAD),
    ("add_bolt_pattern", [], {"id": "p", "ring": "axial", "R_mm": 1, "z_mm": 2, "count": 4.0}, A("assembly", "bolt_patterns", {"id": "p", "ring": "axial", "R_mm": 1.0, "z_mm": 2.0, "count": 4})),
    ("add_bolt_pattern", [], {"id": 7, "ring": "radial", "R_mm": 1, "z_mm": 0, "count": 3, "theta0_deg": 0, "fastener": {"designation": 5, "thread": "tap", "head": None, "other": 1}, "tolerance_mm": 0},
     A("assembly", "bolt_patterns", {"id": "7", "ring": "radial", "R_mm": 1.0, "z_mm": 0.0, "count": 3, "theta0_deg": 0.0, "fastener": {"designation": "5", "thread": "tap"}, "tolerance_mm": 0.0})),
    ("add_bolt_pattern", [], {"id": "q", "ring": "axial", "R_mm": 1, "z_mm": 2, "count": 4, "fastener": {"thread": "glue"}}, BAD),
    ("add_bolt_pattern", [], {"id": "q", "ring": "axial", "R_mm": 1, "z_mm": 2, "count": 4, "fastener": {"head": "flat"}}, BAD),
    ("add_bolt_pattern", [], {"id": "q", "ring": "top", "R_mm": 1, "z_mm": 2, "count": 4}, BAD),
    ("add_bolt_pattern", [], {"id": "", "ring": "axial", "R_mm": 1, "z_mm": 2, "count": 4}, BAD),
    ("add_datum", [], {"id": "d", "kind": "plane", "origin_mm": (1, 2, 3), "direction": (0, 0, 1)}, A("assembly", "datums", {"id": "d", "kind": "plane", "origin_mm": [1.0, 2.0, 3.0], "direction": [0.0, 0.0, 1.0]})),
    ("add_datum", [], {"id": "d", "kind": "bolt_circle", "ring": "radial", "R_mm": 5, "z_mm": 0}, A("assembly", "datums", {"id": "d", "kind": "bolt_circle", "ring": "radial", "R_mm": 5.0, "z_mm": 0.0})),
    ("add_datum", [], {"id": "d", "kind": "axis", "direction": [0, 1]}, BAD),
    ("add_datum", [], {"id": "d", "kind": "axis", "origin_mm": [0, 1, 2, 3]}, BAD),
    ("add_datum", [], {"id": "d", "kind": "corner"}, BAD),
    ("add_datum", [], {"id": "d", "kind": "axis", "ring": "upper"}, BAD),
    ("add_surface", [], {"id": "s", "kind": "wear", "mate_to": "m", "tolerance_mm": 1}, A("assembly", "surfaces", {"id": "s", "kind": "wear", "mate_to": "m", "tolerance_mm": 1.0})),
    ("add_surface", [], {"id": "s", "kind": "paint"}, BAD),
    ("add_keepout", [], {"id": "k", "kind": "ring", "shape": {"r": 1}}, A("assembly", "keepouts", {"id": "k", "kind": "ring", "shape": {"r": 1}})),
    ("add_keepout", [], {"id": "k", "kind": "volume", "shape": [1]}, BAD),
    ("set_operation", [], {"kind": "subtract", "target_filter": ("a", 1), "priority": 1, "through": 1}, S("operation", kind="subtract", target_filter=["a", "1"], priority=1.0, through=True)),
    ("set_operation", [], {"kind": "union", "consume": False, "policy": "strict", "feature_id": 3, "feature_kind": "pocket", "stage": "z"}, S("operation", kind="union", consume=False, policy="strict", feature_id="3", feature_kind="pocket", stage="z")),
    ("set_operation", [], {"kind": "cut"}, BAD),
    ("set_operation", [], {"kind": "union", "policy": "x"}, BAD),
    ("set_operation", [], {"kind": "union", "feature_kind": "x"}, BAD),
]
ROOT = ("schema", "entityId", "id")


def strip(m):
    """The entries of a record; an empty namespace or list is no entry."""
    out = {k: v for k, v in m.items() if k not in ROOT}
    return prune(out)


def prune(v):
    if isinstance(v, dict):
        d = {k: prune(x) for k, x in v.items()}
        return {k: x for k, x in d.items() if not (isinstance(x, (dict, list)) and not x)}
    return v


def entity(kind):
    from yapcad.geom3d_util import prism
    from yapcad.geom3d import poly2surface
    from yapcad.geom import point

    if kind == "solid":
        return prism(1, 1, 1)
    if kind == "surface":
        return poly2surface([point(0, 0), point(1, 0), point(0, 1), point(0, 0)])[0]
    return {}


def record(kind, e, create=True):
    from yapcad import metadata as M

    if kind == "solid":
        return M.get_solid_metadata(e, create=create)
    if kind == "surface":
        return M.get_surface_metadata(e, create=create)
    return e


def judge_history(case):
    import yapcad.metadata as M

    kind, seq = case
    e, other = entity(kind), entity(kind)
    start = strip(record(kind, e)) if kind != "dict" else {}
    start = copy.deepcopy(start)
    ref = copy.deepcopy(start)
    ident = None
    if kind != "dict":
        rec = record(kind, e)
        ident = rec["entityId"]
        require(ident and rec["id"] == ident, "no identity on the record: %r" % rec)
        require(ident != record(kind, other)["entityId"], "two entities share an identity")
    states = []
    for k in seq:
        fn, args, kw, eff = OPS[k]
        a, w = copy.deepcopy(args), copy.deepcopy(kw)
        rec = record(kind, e)
        try:
            getattr(M, fn)(rec, *a, **w)
            ok = True
        except ValueError:
            ok = False
        require(ok == (eff is not BAD), "%s(%r, %r) %s" % (fn, args, kw, "was accepted" if ok else "was refused"))
        require(a == args and w == kw, "%s changed its arguments" % fn)
        if ok:
            eff(ref)
        rec = record(kind, e)
        want = dict(prune(ref))
        want.setdefault("layer", "default")
        got = strip(rec)
        got.setdefault("layer", "default")
        require(got == want, "after %r the record is %r, not %r" % ([OPS[j][0] for j in seq], got, want))
        # changing what was passed in does not change the record
        for v in list(a) + list(w.values()):
            if isinstance(v, dict):
                v["_later"] = 1
            elif isinstance(v, list):
                v.append("_later")
        got = strip(record(kind, e))
        got.setdefault("layer", "default")
        require(got == want, "%s kept a reference to its argument" % fn)
        if kind != "dict":
            require(record(kind, e, False)["entityId"] == ident and record(kind, e)["id"] == ident, "the identity changed")
        require(M.get_assembly_metadata(rec) == rec.get("assembly", {}) and M.get_operation_metadata(rec) == rec.get("operation", {}), "namespace reader disagrees")
        states.append(h(repr(sorted(want.items(), key=str))))
    if kind != "dict":
        require(strip(record(kind, other)) == start, "another entity's record changed: %r" % strip(record(kind, other)))
    return Out(kind + ("" if all(OPS[k][3] is not BAD for k in seq) else "/refused"), states, len(seq))


def g_history(ctx):
    N = range(len(OPS))
    for kind in ("dict", "solid", "surface"):
        for d in (1, 2):
            for seq in itertools.product(N, repeat=d):
                yield [kind, list(seq)]
    for kind in ctx.pick(("dict",), ("dict", "solid", "surface")):
        for seq in itertools.product(N, repeat=3):
            yield [kind, list(seq)]
    if ctx.thorough:
        sub = [k for k in N if OPS[k][3] is not BAD and OPS[k][0] in ("add_tags", "set_layer", "set_material", "add_compliance", "set_assembly", "add_datum", "set_operation", "add_design_history_entry")]
        for seq in itertools.product(sub, repeat=4):
            yield ["dict", list(seq)]


# ---------------------------------------------------------------- whole records
WOPS = ["get", "peek", "ensure", "set", "units", "origin", "context", "bad"]


def g_whole(ctx):
    for kind in ("solid", "surface"):
        for d in range(1, ctx.pick(5, 6)):
            for seq in itertools.product(WOPS, repeat=d):
                yield [kind, list(seq)]


def judge_whole(case):
    import yapcad.metadata as M

    kind, seq = case
    e = entity(kind)
    idx = 4 if kind == "solid" else 6
    body = copy.deepcopy(e[:idx])
    get = lambda c: record(kind, e, c)
    ensure = M.ensure_solid_id if kind == "solid" else M.ensure_surface_id
    put = M.set_solid_metadata if kind == "solid" else M.set_surface_metadata
    ref = copy.deepcopy(strip(get(True)))
    ident = get(True)["id"]
    for n, op in enumerate(seq):
        if op == "get":
            get(True)
        elif op == "peek":
            get(False)
        elif op == "ensure":
            require(ensure(e) == ident, "the identity changed")
        elif op == "set":
            new = {"mark": n, "id": ident, "entityId": ident}
            require(put(e, new) is e, "set returned another object")
            ref = {"mark": n}
        elif op in ("units", "origin") and kind == "surface":
            getattr(M, "set_surface_" + op)(e, op + str(n))
            ref[op] = op + str(n)
        elif op == "context" and kind == "solid":
            M.set_solid_context(e, {"n": n})
            ref["context"] = {"n": n}
        elif op == "bad":
            for f in (lambda: put(e, [1]), lambda: put([], {}), lambda: put(e[0:1], {})):
                try:
                    f()
                except ValueError:
                    continue
                require(False, "an invalid record or entity was accepted")
        got = strip(get(False))
        got.setdefault("layer", "default")
        want = dict(prune(ref))
        want.setdefault("layer", "default")
        require(got == want, "after %r the record is %r, not %r" % (seq[: n + 1], got, want))
        require(get(False)["id"] == ident, "the identity changed")
        require(len(e) == idx + 1 and e[:idx] == body, "the entity itself changed")
    return Out(kind, [h((kind, tuple(seq)))], len(seq))


def judge(kind, case):
    return {"history": judge_history, "whole": judge_whole}[kind](case)


def run(ctx):
    ctx.assumptions = ["values are of the documented types; conversions that fail (a non-numeric length) are not explored"]
    ctx.explore(judge, [("whole", g_whole(ctx)), ("history", g_history(ctx))], batch=300)
