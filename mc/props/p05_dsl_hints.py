"""P05: @meta writes exactly what it says on the emitted solid; @ui changes nothing."""
import copy
import itertools

from mc import dslrun
from mc.core import Out, require

META = {
    "id": "P05",
    "title": "@meta tags exactly the emitted solid, once; @ui never affects a result",
    "statement": "A command's @meta decorators put exactly their entries (later decorators winning) into the metadata of the solid it emits: routed to the documented namespaces, converted and validated as the Python helpers do, idempotent when the hint is applied again, with hints of helper and caller adding up. No other solid changes, a caller's own solid and other results of the same command included, nor does any geometry; a non-solid result is left alone and an invalid entry fails the run. @ui decorators change no value, contract or error of any program.",
    "over": ["programs", "histories"],
    "forall": "every single and every ordered pair of hint entries of the alphabet, in one or two decorators, over every call shape (direct, helper, re-emitted argument, repeated, nested, loop); every @ui value on every parameter position",
    "why": "Tests apply one hint to one solid; shared or repeated hints show only with several solids or several calls.",
    "files": ["src/yapcad/dsl/meta_apply.py", "src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/parser.py", "src/yapcad/metadata.py"],
    "mech": [["hint routing", "dsl/meta_apply.py:apply_meta_hint"], ["hint application", "dsl/runtime/interpreter.py:Interpreter._apply_command_meta_hint"], ["decorator merging", "dsl/parser.py:Parser._parse_meta_decorator"]],
    "technique": "bounded exhaustive enumeration of hint combinations and call shapes on the real compiler, compared with a reference metadata model",
    "note": "all pairs of 38 entries in 2 arrangements over 8 call shapes",
}


# ---------------------------------------------------------------- reference
def ns(m, name):
    if not isinstance(m.get(name), dict):
        m[name] = {}
    return m[name]


def setr(k, v):
    return lambda m: m.__setitem__(k, copy.deepcopy(v))


def setn(n, k, v):
    return lambda m: ns(m, n).__setitem__(k, copy.deepcopy(v))


def tags(*ts):
    def f(m):
        for t in ts:
            if t not in m["tags"]:
                m["tags"].append(t)
    return f


def items(field, *es):
    def f(m):
        lst = ns(m, "assembly").setdefault(field, [])
        for e in es:
            if e not in lst:
                lst.append(copy.deepcopy(e))
    return f


BAD = None
# (key, text of the value, effect)
ENT = [
    ("layer", '"x"', setr("layer", "x")),
    ("layer", "3", setr("layer", "3")),
    ("tags", '["t"]', tags("t")),
    ("tags", '["t", "u", "t"]', tags("t", "u")),
    ("tags", '"v"', tags("v")),
    ("vendor", '{a=1, b=[1, -2.5], c={d=true}}', setr("vendor", {"a": 1, "b": [1, -2.5], "c": {"d": True}})),
    ("parts", "[1, 2]", setr("parts", [1, 2])),
    ("assembly.joint_kind", '"axial"', setn("assembly", "joint_kind", "axial")),
    ("assembly.joint_kind", '"mixed"', setn("assembly", "joint_kind", "mixed")),
    ("assembly.joint_kind", '"hinge"', BAD),
    ("assembly.no_cut", "true", setn("assembly", "no_cut", True)),
    ("assembly.no_cut", '"no"', setn("assembly", "no_cut", False)),
    ("assembly.note", '["n"]', setn("assembly", "note", ["n"])),
    ("assembly.datums", '[{id="d", kind="axis", ring="axial", R_mm=2}]', items("datums", {"id": "d", "kind": "axis", "ring": "axial", "R_mm": 2.0})),
    ("assembly.datums", '[{id="e", kind="plane", origin_mm=[1, 2, 3], direction=[0, 0, 1]}, {id="f", kind="point", z_mm=-1}]',
     items("datums", {"id": "e", "kind": "plane", "origin_mm": [1.0, 2.0, 3.0], "direction": [0.0, 0.0, 1.0]}, {"id": "f", "kind": "point", "z_mm": -1.0})),
    ("assembly.datums", '[{id="g", kind="hole"}]', BAD),
    ("assembly.datums", '[{id="g", kind="axis", origin_mm=[1, 2]}]', BAD),
    ("assembly.datums", '[{id="g", kind="axis", size=3}]', BAD),
    ("assembly.datums", '[{kind="axis"}]', BAD),
    ("assembly.datums", '"d"', BAD),
    ("assembly.bolt_patterns", '[{id="p", ring="radial", R_mm=4.5, z_mm=1, count=8, theta0_deg=15, fastener={designation="M3", thread="tap", head="SHCS"}, tolerance_mm=0.1}]',
     items("bolt_patterns", {"id": "p", "ring": "radial", "R_mm": 4.5, "z_mm": 1.0, "count": 8, "theta0_deg": 15.0, "fastener": {"designation": "M3", "thread": "tap", "head": "SHCS"}, "tolerance_mm": 0.1})),
    ("assembly.bolt_patterns", '[{id="p", ring="upper", R_mm=4.5, z_mm=1, count=8}]', BAD),
    ("assembly.surfaces", '[{id="s", kind="mating", mate_to="a.b", finish="fine", tolerance_mm=1}]', items("surfaces", {"id": "s", "kind": "mating", "mate_to": "a.b", "finish": "fine", "tolerance_mm": 1.0})),
    ("assembly.keepouts", '[{id="k", kind="volume", shape={r=1}, reason="why"}]', items("keepouts", {"id": "k", "kind": "volume", "shape": {"r": 1}, "reason": "why"})),
    ("operation.kind", '"subtract"', setn("operation", "kind", "subtract")),
    ("operation.kind", '"union"', setn("operation", "kind", "union")),
    ("operation.policy", '"warn"', setn("operation", "policy", "warn")),
    ("operation.policy", '"maybe"', BAD),
    ("operation.feature_kind", '"vent"', setn("operation", "feature_kind", "vent")),
    ("operation.through", "true", setn("operation", "through", True)),
    ("operation.consume", '"false"', setn("operation", "consume", False)),
    ("operation.priority", "2", setn("operation", "priority", 2.0)),
    ("operation.priority", "-1.5", setn("operation", "priority", -1.5)),
    ("operation.feature_id", "7", setn("operation", "feature_id", "7")),
    ("operation.stage", '"late"', setn("operation", "stage", "late")),
    ("operation.target_filter", '"a, b ,"', setn("operation", "target_filter", ["a", "b"])),
    ("operation.target_filter", '["c"]', setn("operation", "target_filter", ["c"])),
    ("operation.extra", "[1, {k=2}]", setn("operation", "extra", [1, {"k": 2}])),
    ("acme.rev", "2", setn("acme", "rev", 2)),
    ("acme.a.b", '"z"', setn("acme", "a.b", "z")),
]


def merged(entries):
    """Entries of all decorators of a command: the later value of a key wins."""
    d = {}
    for i in entries:
        d[ENT[i][0]] = ENT[i][2]
    return list(d.values())


def effect(m, entries):
    for f in merged(entries):
        if f is BAD:
            raise ValueError
        f(m)
    return m


def val(i):
    """Value text; inside a dict literal the separator is a colon."""
    return ENT[i][1].replace("=", ": ")


def deco(groups):
    return "".join("@meta(%s)\n" % ", ".join("%s=%s" % (ENT[i][0], val(i)) for i in g) for g in groups if g)


# ---------------------------------------------------------------- programs
BOX = "box(1.0, 2.0, 3.0)"
SHAPES = {
    # name: (text with {h} and {c} for the two hints, [which hints each emitted solid carries])
    "top": ("{h}command C() -> solid:\n    emit " + BOX + "\n", ["h"]),
    "def": ("{h}def C() -> solid:\n    return " + BOX + "\n", None),
    "helper": ("{h}command h() -> solid:\n    emit " + BOX + "\n\ncommand C() -> list<solid>:\n    a: solid = h()\n    b: solid = " + BOX + "\n    emit [a, b, h()]\n", ["h", "", "h"]),
    "nested": ("{h}command h() -> solid:\n    emit " + BOX + "\n\n{c}command k() -> solid:\n    emit h()\n\ncommand C() -> list<solid>:\n    emit [k(), h(), k()]\n", ["hc", "h", "hc"]),
    "reemit": ("{h}command h(s: solid) -> solid:\n    emit s\n\n{c}command k(s: solid) -> solid:\n    t: solid = h(s)\n    emit s\n\ncommand C() -> list<solid>:\n    a: solid = " + BOX + "\n    b: solid = h(a)\n    c: solid = h(b)\n    d: solid = k(b)\n    emit [a, b, c, d]\n", ["", "h", "hh", "hc"]),
    "moved": ("{h}command h(s: solid) -> solid:\n    emit translate(s, 1.0, 0.0, 0.0)\n\n{c}command C(n: int = 1) -> solid:\n    emit h(h(" + BOX + "))\n", ["hhc"]),
    "loop": ("{h}command h(n: int) -> solid:\n    if n > 0:\n        emit h(n - 1)\n    emit " + BOX + "\n\ncommand C() -> list<solid>:\n    emit [h(n) for n in range(3)]\n", ["h", "hh", "hhh"]),
    "list": ("{h}command h() -> list<solid>:\n    emit [" + BOX + "]\n\n{c}command C() -> list<solid>:\n    a: list<solid> = h()\n    emit a\n", [""]),
}
IGNORE = ("entityId", "id", "schema", "timestamp", "brep")


def meta_of(s):
    m = s[4] if len(s) > 4 and isinstance(s[4], dict) else {}
    return {k: v for k, v in m.items() if k not in IGNORE}


_BASE = {}


def base():
    if not _BASE:
        res = dslrun.real("module m\n\ncommand C() -> solid:\n    emit %s\n" % BOX, "C", {}, None)
        m = meta_of(res.geometry)
        m.setdefault("tags", [])
        m.setdefault("layer", "default")
        _BASE["m"], _BASE["g"] = m, geo(res.geometry)
    return _BASE


def geo(s):
    """Geometry of a solid (the planes' vertices), without metadata."""
    return repr([surf[1:4] for surf in s[1]])


def solids(g):
    return [g] if g and g[0] == "solid" else list(g)


def judge_meta(case):
    shape, hh, cc = case
    text, who = SHAPES[shape]
    if who is None:
        text, who = text.replace("return", "emit"), ["h"]
    src = "module m\n\n" + text.replace("{h}", deco(hh)).replace("{c}", deco(cc))
    res = dslrun.real(src, "C", {}, None)
    eh, ec = [i for g in hh for i in g], [i for g in cc for i in g]
    base()
    want, bad = [], False
    for w in who:
        m = copy.deepcopy(_BASE["m"])
        try:
            for ch in w:
                effect(m, eh if ch == "h" else ec)
        except ValueError:
            bad = True
        want.append(m)
    if shape == "reemit":
        want[3] = None if bad else effect(copy.deepcopy(want[1]), ec)
    if bad:
        require(not res.success and res.emit_result is None and res.error_message, "an invalid hint was accepted:\n%s" % src)
        return Out("refused")
    require(res.success, "the run failed: %s\n%s" % (res.error_message, src))
    got = solids(res.geometry)
    require(len(got) == len(want), "%d solids came out, not %d" % (len(got), len(want)))
    for k, (s, m) in enumerate(zip(got, want)):
        g = meta_of(s)
        g.setdefault("tags", [])
        g.setdefault("layer", "default")
        require(g == m, "solid %d carries %r, not %r\n%s" % (k, g, m, src))
        if shape != "moved":
            require(geo(s) == _BASE["g"], "the hint changed geometry\n%s" % src)
    # values of one solid are not shared with another
    seen = {}
    for k, s in enumerate(got):
        if any(s is t for t in got[:k]):
            continue
        for path, o in containers(s[4] if len(s) > 4 else {}):
            require(seen.setdefault(id(o), k) == k, "solids %d and %d share the value at %s\n%s" % (seen[id(o)], k, path, src))
    # running it again gives the same
    res2 = dslrun.real(src, "C", {}, None)
    require([meta_of(s) for s in solids(res2.geometry)] == [meta_of(s) for s in got], "a second run differs\n%s" % src)
    return Out(shape)


def containers(o, path=""):
    if isinstance(o, dict):
        for k, v in o.items():
            if isinstance(v, (dict, list)):
                yield path + "." + str(k), v
                yield from containers(v, path + "." + str(k))
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield path + "[]", v
                yield from containers(v, path + "[]")


def g_meta(ctx):
    N = range(len(ENT))
    for sh in SHAPES:
        yield [sh, [], []]
        for i in N:
            yield [sh, [[i]], []]
            if "{c}" in SHAPES[sh][0]:
                yield [sh, [], [[i]]]
        for i in N:
            for j in N:
                same = ENT[i][0] == ENT[j][0]
                if sh in ("top", "helper", "reemit") or same:
                    if not same:
                        yield [sh, [[i, j]], []]
                    yield [sh, [[i], [j]], []]
                if "{c}" in SHAPES[sh][0]:
                    yield [sh, [[i]], [[j]]]
    if ctx.thorough:
        good = [i for i in N if ENT[i][2] is not BAD]
        for sh in ("nested", "reemit"):
            for i, j, k in itertools.product(good, repeat=3):
                yield [sh, [[i], [j]], [[k]]]


# direct application, any number of times
def g_apply(ctx):
    good = [i for i in range(len(ENT))]
    for i, j in itertools.product(good, repeat=2):
        yield [i, j]


def judge_apply(case):
    from yapcad.dsl import apply_meta_hint, apply_meta_hint_to_raw, parse, tokenize
    from yapcad.geom3d_util import prism

    i, j = case
    hints = []
    for g in ([i], [j]):
        mod = parse(tokenize("module m\n\n%scommand C() -> int:\n    emit 1\n" % deco([g])))
        hints.append(mod.commands[0].meta_hint)
    keep = copy.deepcopy(hints)
    base()
    for order in ((0,), (0, 0), (0, 1), (0, 1, 0), (0, 1, 1, 0)):
        m = {"tags": [], "layer": "default"}
        raw = {}
        sld = prism(1, 1, 1)
        bad = False
        for k in order:
            e = [i, j][k]
            try:
                effect(m, [e])
            except ValueError:
                bad = True
            for f in (lambda: apply_meta_hint(sld, hints[k]), lambda: apply_meta_hint_to_raw(raw, hints[k])):
                try:
                    f()
                    ok = True
                except (ValueError, TypeError):
                    ok = False
                require(ok == (not bad), "applying %s=%s %s" % (ENT[e][0], ENT[e][1], "failed" if bad is False else "was accepted"))
            if bad:
                break
        if bad:
            continue
        base_m = {k: v for k, v in meta_of(prism(1, 1, 1)).items() if k not in ("tags", "layer")}
        require({k: v for k, v in meta_of(sld).items() if k not in base_m} == m, "order %r: solid carries %r, not %r" % (order, meta_of(sld), m))
        require({k: v for k, v in raw.items() if k not in IGNORE} == m, "order %r: raw metadata is %r, not %r" % (order, raw, m))
    require(hints == keep, "applying a hint changed the hint: %r -> %r" % (keep, hints))
    return Out("bad" if ENT[i][2] is BAD or ENT[j][2] is BAD else "ok")


# ---------------------------------------------------------------- @ui
UI = ['widget="slider"', "min=0, max=10", "min=-5.5", 'options=["a", "b"]', "step=1 / 0", "ref=undefined_name", "call=h(0)", "nest={a: [1, {b: 2}]}", "", "x=true", 'n=1, n=2']
UPROG = [
    ("command C(n: int {0}, q: float {1} = n / 2.0) -> float:\n    require n > 0, \"pos\"\n    emit h(n) + q\n\ncommand h(n: int {2} = 4) -> float:\n    emit 10.0 / n\n", [{"n": 2}, {"n": 2, "q": 7.5}, {"n": 0}, {"n": -1}, {}, {"n": "x"}]),
    ("command C(s: string {0} = \"k\", l: list<int> {1} = [1, 2], b: bool {2} = true) -> int:\n    emit l[0] if b else l[1]\n", [{}, {"b": False}, {"l": [5]}, {"l": [5], "b": False}]),
]


def g_ui(ctx):
    for p in range(len(UPROG)):
        for us in itertools.product([None] + list(range(len(UI))), repeat=3):
            yield [p, list(us)]


def judge_ui(case):
    p, us = case
    text, runs = UPROG[p]

    def form(us):
        t = text
        for k, u in enumerate(us):
            t = t.replace(" {%d}" % k, "" if u is None else " @ui(%s)" % UI[u])
        return "module m\n\n" + t

    for params in runs:
        a = dslrun.real(form([None] * 3), "C", dict(params), None)
        b = dslrun.real(form(us), "C", dict(params), None)
        key = lambda r: (r.success, repr(r.geometry), [f.message for f in r.require_failures], r.error_message if r.error_message is None else r.error_message.split("\n")[0])
        require(key(a) == key(b), "@ui changed the run with %r: %r became %r\n%s" % (params, key(a), key(b), form(us)))
    return Out("p%d" % p)


def judge(kind, case):
    return {"meta": judge_meta, "apply": judge_apply, "ui": judge_ui}[kind](case)


def run(ctx):
    ctx.assumptions = ["hints name distinct things: a plain key and a namespace of the same name are not combined"]
    ctx.explore(judge, [("meta", g_meta(ctx), 40), ("apply", g_apply(ctx)), ("ui", g_ui(ctx))], batch=60)
