"""P24: assembly operations reach exactly their targets, in priority and stage order."""
import copy
import itertools

from mc.core import Out, h, require

META = {
    "id": "P24",
    "title": "Assembly operations cut exactly their targets, in priority and stage order",
    "statement": "Resolving an assembly applies every cutter to each part its target filter names and to no other, in ascending priority within a stage and in stage order across stages, using the real Boolean of the operands. Consumed cutters vanish, retained ones and untouched parts come through unchanged, and every failure is recorded by its policy: strict makes the result unsuccessful, warn is reported, and neither loses the rest. Nothing the caller passed in is changed, and an operation without targets stops the whole resolution.",
    "over": ["inputs", "histories"],
    "forall": "every set of up to three operations over kinds, target filters, priorities, consume flags, policies, stages and cutter outcomes (works, fails, missing)",
    "why": "The suite replaces the Boolean by a stub and tries one order of one or two cutters; lost warnings, mixed-up targets, ordering across stages and retention depend on combinations it never forms.",
    "files": ["src/yapcad/assembly/resolver.py", "src/yapcad/metadata.py"],
    "mech": [["operation resolution", "assembly/resolver.py:BasicResolver.resolve"], ["stages", "assembly/resolver.py:StagedResolver.resolve"]],
    "technique": "explicit enumeration of operation sets on the real resolvers with a recording Boolean engine, judged by a reference fold; real Booleans on a box grid",
    "note": "every single operation, pairs and triples over the alphabet in the code; every kind on real boxes",
}

PARTS = ["A", "B", "C", "D"]


def solid(term):
    """A structurally valid yapCAD solid that carries a symbolic term."""
    return ["solid", [], [], [term]]


def fake_boolean(a, b, operation, *args, **kw):
    ta, tb = a[3][0], b[3][0]
    if str(tb).startswith("bad"):
        raise RuntimeError("boolean failed on " + str(tb))
    return solid("%s(%s,%s)" % (operation, ta, tb))


OPNAME = {"subtract": "difference", "intersect": "intersection", "union": "union"}


def make_meta(op):
    from yapcad.metadata import set_operation

    if op is None:
        return {}
    kind, targets, prio, consume, policy, stage = op
    meta = {}
    if kind in OPNAME:
        set_operation(meta, kind=kind, target_filter=targets, priority=prio, consume=consume, policy=policy, stage=stage)
    else:
        o = {"kind": kind, "target_filter": targets, "priority": prio, "consume": consume, "policy": policy, "stage": stage}
        meta["operation"] = {k: v for k, v in o.items() if v is not None}
    return meta


def ref_stage(geo, ops, applied):
    """One stage: returns new geometry, per part failures; extends `applied`."""
    out, fails = {}, []
    for pid in geo:
        mine = [(c, o) for c, o in ops if pid in (o[1] or [])]
        if not mine:
            if any(c == pid and o[3] is not False for c, o in ops):
                continue
            out[pid] = geo[pid]
            continue
        # ties: whichever order the resolver reports, checked by the caller
        mine.sort(key=lambda t: 50 if t[1][2] is None else t[1][2])
        order = applied(pid, mine, geo)
        term = geo[pid]
        for c, o in order:
            if c not in geo or str(geo[c]).startswith("bad") or o[0] not in OPNAME:
                fails.append((pid, c, o[4] or "strict"))
            else:
                term = "%s(%s,%s)" % (OPNAME[o[0]], term, geo[c])
        out[pid] = term
    return out, fails


def judge(kind, case):
    return globals()["judge_" + kind](case)


def judge_ops(case):
    """case: (resolver, outcomes, ops) with ops = ((cutter, op), ...)"""
    import yapcad.geom3d as g3

    mode, outcomes, ops = case
    outcomes = dict(outcomes)
    keep = g3.solid_boolean
    g3.solid_boolean = fake_boolean
    try:
        from yapcad.assembly import resolver as R

        keep_r = getattr(R, "solid_boolean", None)
        if keep_r is not None:
            R.solid_boolean = fake_boolean
        geo = {p: ("bad" + p if outcomes.get(p) == "bad" else p) for p in PARTS if outcomes.get(p) != "missing"}
        parts = {p: solid(t) for p, t in geo.items()}
        metas = {p: {} for p in PARTS}
        for c, o in ops:
            metas[c] = make_meta(o)
        before = copy.deepcopy((parts, metas))
        if mode == "default":
            res = R.resolve_assembly(parts, metas)
        else:
            r = R.BasicResolver() if mode == "basic" else R.StagedResolver(stages=list(mode))
            res = R.resolve_assembly(parts, metas, resolver=r)
        if keep_r is not None:
            R.solid_boolean = keep_r
    finally:
        g3.solid_boolean = keep
    what = "%s %r %r" % (mode, outcomes, ops)
    require((parts, metas) == before, what + ": the caller's parts or metadata were changed")
    opd = sorted(ops, key=lambda t: PARTS.index(t[0]))  # the order of the metadata map
    if any(not o[1] for c, o in opd):
        bad = [c for c, o in opd if not o[1]]
        require(not res.success and all(any("'%s'" % c in e for e in res.errors) for c in bad), what + ": operation without targets not refused: %r" % (res.errors,))
        require({k: v.geometry for k, v in res.parts.items()} == parts and not any(v.applied_operations for v in res.parts.values()), what + ": parts changed although refused")
        return Out("refused", [], 1)
    if mode in ("basic", "default"):
        stages = [opd]
    else:
        stages = [[(c, o) for c, o in opd if (o[5] if o[5] in mode else mode[-1]) == s] for s in mode]
    used = {p: 0 for p in PARTS}
    wrong = []
    seq = {}

    def order(pid, mine, geo):
        """The resolver's own order, if it is a legal one."""
        if pid not in res.parts:  # consumed in a later stage
            return mine
        got = res.parts[pid].applied_operations
        runs = [c for c, o in mine if c in geo and not str(geo[c]).startswith("bad") and o[0] in OPNAME]
        part = got[used[pid]:used[pid] + len(runs)]
        used[pid] += len(runs)
        d = dict(mine)
        if sorted(part) != sorted(runs):
            wrong.append("part %s: applied %r, expected %r" % (pid, part, runs))
            return mine
        pr = [50 if d[c][2] is None else d[c][2] for c in part]
        if pr != sorted(pr):
            wrong.append("part %s: applied %r with priorities %r" % (pid, part, pr))
        pos = {c: i for i, c in enumerate(part)}
        seq.setdefault(pid, []).extend(part)
        return sorted(mine, key=lambda t: pos.get(t[0], -1))

    fails = []
    kept = {}
    for st in stages:
        if not st:
            continue
        for pid in geo:
            for c, o in st:
                if pid in o[1] and o[3] is False and c in geo:
                    kept.setdefault(pid, []).append(c)
        geo, f = ref_stage(geo, st, order)
        fails += f
    require(not wrong, what + ": " + "; ".join(wrong))
    require(set(res.parts) == set(geo), what + ": left with %r, expected %r" % (sorted(res.parts), sorted(geo)))
    for p in geo:
        r = res.parts[p]
        require(r.part_id == p, what + ": part %s is called %s" % (p, r.part_id))
        require(r.geometry[3][0] == geo[p], what + ": part %s is %s, expected %s" % (p, r.geometry[3][0], geo[p]))
        require(list(r.applied_operations) == seq.get(p, []), what + ": part %s reports %r" % (p, r.applied_operations))
        require(sorted(r.retained_cutters) == sorted(kept.get(p, [])), what + ": part %s retains %r, expected %r" % (p, r.retained_cutters, kept.get(p, [])))
    strict = [(p, c) for p, c, pol in fails if pol == "strict"]
    warn = [(p, c) for p, c, pol in fails if pol == "warn"]
    require(res.success == (not strict), what + ": success=%s with strict failures %r" % (res.success, strict))
    require(len(res.errors) == len(strict), what + ": errors %r, expected failures %r" % (res.errors, strict))
    for p, c in strict:
        require(any("'%s'" % c in e and "'%s'" % p in e for e in res.errors), what + ": failure of %s on %s is not reported" % (c, p))
    for p in geo:
        r = res.parts[p]
        for which, want in ((r.errors, [c for q, c in strict if q == p]), (r.warnings, [c for q, c in warn if q == p])):
            require(len(which) == len(want) and all(any("'%s'" % c in e for e in which) for c in want), what + ": part %s reports %r, expected failures of %r" % (p, which, want))
    return Out("resolved" if res.success else "failed", [h(sorted(geo.items()))], len(ops))


def mesh(sol):
    return [[[tuple(map(float, v)) for v in s[1]], s[3]] for s in sol[1]]


def judge_real(case):
    """Real boxes through the real Boolean."""
    from yapcad.assembly.resolver import BasicResolver, StagedResolver
    from yapcad.geom import point
    from yapcad.geom3d import solid_boolean
    from yapcad.geom3d_util import prism

    def box(lo, size):
        return prism(size[0], size[1], size[2], center=point(*[a + b / 2 for a, b in zip(lo, size)]))

    kinds, cut, mode = case

    def parts():
        return {"A": box((0, 0, 0), (10, 10, 10)), "B": box((30, 0, 0), (5, 5, 5)), "C": box(*cut), "D": box((1, 1, 1), (2, 30, 2))}

    metas = {"A": {}, "B": {}, "C": make_meta((kinds[0], ["A"], 20, False, None, None)), "D": make_meta((kinds[1], ["A"], 10, True, None, None))}
    r = BasicResolver() if mode == "basic" else StagedResolver(stages=["one", "two"])
    res = r.resolve(parts(), metas)
    fresh = parts()
    want = solid_boolean(solid_boolean(fresh["A"], fresh["D"], OPNAME[kinds[1]]), fresh["C"], OPNAME[kinds[0]])
    require(res.success, "%r: %r" % (case, res.errors))
    require(set(res.parts) == {"A", "B", "C"}, "%r: parts %r" % (case, sorted(res.parts)))
    require(mesh(res.parts["A"].geometry) == mesh(want), "%r: the part is not what the Boolean of its operands gives" % (case,))
    for x in "BC":
        require(mesh(res.parts[x].geometry) == mesh(fresh[x]), "%r: part %s changed" % (case, x))
    return Out("real", [], 2)


def judge_env(case):
    import os

    from yapcad.assembly import resolver as R

    val, stages = case
    old = os.environ.pop("YAPCAD_ASSEMBLY_RESOLVER", None)
    try:
        if val is not None:
            os.environ["YAPCAD_ASSEMBLY_RESOLVER"] = val
        args = {} if stages is None else {"resolver": R.StagedResolver(stages=list(stages)) if stages else R.BasicResolver()}
        try:
            res = R.resolve_assembly({"A": solid("A")}, {"A": {}}, **args)
            ok = True
        except ValueError:
            ok = False
    finally:
        os.environ.pop("YAPCAD_ASSEMBLY_RESOLVER", None)
        if old is not None:
            os.environ["YAPCAD_ASSEMBLY_RESOLVER"] = old
    want = stages is not None or val is None or val.lower() == "basic"
    require(ok == want, "YAPCAD_ASSEMBLY_RESOLVER=%r with resolver=%r: %s" % (val, stages, "accepted" if ok else "refused"))
    if ok:
        require(set(res.parts) == {"A"} and res.success, "nothing to do, but %r" % (res,))
    return Out("env", [], 1)


KINDS = ["subtract", "intersect", "union", "weld"]
FILTERS = [None, (), ("A",), ("B",), ("A", "B"), ("C",), ("A", "Z"), ("D", "B")]
PRIO = [None, 0, -5, 10, 50, 90.5]
POLICY = [None, "strict", "warn", "ignore"]
STAGES = [None, "s0", "s1", "other"]
MODES = ["basic", ("s0", "s1"), ("s1", "s0"), ("only",)]


def op_set(kinds, filters, prio, consume, policy, stage):
    return [tuple(x) for x in itertools.product(kinds, filters, prio, consume, policy, stage)]


def single():
    for o in op_set(KINDS, FILTERS, PRIO, (None, True, False), POLICY, STAGES):
        for mode in MODES:
            for out in ((), (("C", "bad"),), (("C", "missing"),)):
                if out and o[2] not in (None, 10):
                    continue
                yield (mode, out, (("C", o),))


def pairs(ctx):
    one = op_set(("subtract", "union"), (("A",), ("A", "B"), ("D", "B"), ("C",)), (None, 10, 90, -5), (None, False), (None, "warn"), (None, "s0"))
    two = op_set(("subtract", "intersect"), (("A",), ("A", "B"), ("C",)), (None, 10, 0), (None, False), ("strict", "warn"), ("s0", "s1"))
    for o1, o2 in itertools.product(one, two):
        if o1[1] == ("C",) or "D" in o1[1] and "C" in o2[1]:
            o1 = o1[:1] + (("D",),) + o1[2:] if o1[1] == ("C",) else o1
        for mode in (MODES[0], MODES[1]) if not ctx.thorough else MODES:
            for out in ((), (("D", "bad"),), (("C", "missing"),)) if ctx.thorough or o1[4] == "warn" or o1[3] is None else ((),):
                yield (mode, out, (("C", o1), ("D", o2)))


def triples(ctx):
    alts = op_set(("subtract",), (("A",), ("A", "D"), ("B",)), (None, 10, 90), (None, False), ("warn",), (None, "s0"))
    few = op_set(("union",), (("A",), ("B", "A")), (None, 5), (None, False), (None,), ("s0", "s1"))
    third = op_set(("intersect",), (("A",), ("C",)), (50, 95), (False,), (None,), ("s1",)) if not ctx.thorough else op_set(("intersect",), (("A",), ("C",)), (50, 5, 95), (False, None), ("warn", None), ("s1", None))
    for o1, o2, o3 in itertools.product(few, alts, third):
        for mode in (MODES[0], MODES[1]):
            yield (mode, (), (("B", o1), ("C", o2), ("D", o3)))


def run(ctx):
    cuts = [((2, 2, -5), (3, 3, 20)), ((5, 5, 5), (10, 10, 10)), ((-5, 2, 2), (10, 3, 4)), ((3, 3, 3), (4, 4, 4))]
    ctx.explore(judge, [
        ("real", [((k1, k2), c, m) for k1 in OPNAME for k2 in ("subtract", "union") for c in cuts[: ctx.pick(2, 4)] for m in ("basic", "staged")], 1),
        ("ops", itertools.chain(single(), pairs(ctx), triples(ctx)), 256),
        ("env", itertools.product((None, "basic", "BASIC", "staged", "nope"), (None, (), ("s0",))), 8),
    ])
    ctx.assumptions.append("`through` is not implemented by the resolver and is not claimed")
    ctx.assumptions.append("priority ties may be applied in any order")
