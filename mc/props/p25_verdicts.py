"""P25: a validation plan passes only when what was measured meets every criterion."""
import itertools
import json
import math
import os
import shutil
import stat
import tempfile
from pathlib import Path

from mc.core import Out, h, require

META = {
    "id": "P25",
    "title": "A validation plan passes only when every acceptance criterion is met",
    "statement": "A run of an analysis plan is `passed` exactly when every acceptance criterion can be evaluated and is met by the metric it names, whichever backend measures it, and summary, failed criteria, acceptance results and the manifest's entry all tell the outcome of this run and of no earlier one. The native backend measures exactly the solids the plan names (volume, area, bounding box, mass, centroid, in the units it reports), and the CalculiX input covers the plate with the loads and supports of the plan. Plan and result documents are reported valid exactly when they follow the schema, and nothing is ever written outside of the plan's results folder and the manifest.",
    "over": ["inputs", "histories", "fault points"],
    "forall": "every criterion of the grid of metrics, comparisons, limits and tolerances and every ordered set of up to three; every part, entity list, unit and axis of the grids; every history of up to three solver runs; every one or two altered fields of each kind of document",
    "why": "A plan that passes although a criterion is misspelt, skipped, judged by stale results or by the wrong parts releases a bad design; the suite runs a handful of plans on one box.",
    "files": ["src/yapcad/package/analysis/base.py", "src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/fenics.py", "src/yapcad/package/analysis/cli.py", "src/yapcad/package/analysis/schema.py"],
    "mech": [["judging criteria", "package/analysis/yapcad_native.py:YapCADNativeAdapter"], ["running plans", "package/analysis/cli.py:analyze_package"], ["solver runs", "package/analysis/calculix.py:CalculixAdapter"], ["documents", "package/analysis/schema.py:validate_plan"]],
    "technique": "explicit enumeration of criteria, parts, documents and of histories of solver outcomes, run through the real analyze_package against an independent reference",
    "note": "the solver is a stand-in script with every outcome of the grid; FEniCSx is not installed here, of that backend only the judging of criteria is run; clearance checks are not implemented in yapCAD and end in an error",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


# ---- reference: one criterion

NAN = float("nan")


def number(x):
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            return None
    return None


def ref_met(value, rule, aliases=()):
    """True, False, or None for a criterion that cannot be evaluated."""
    if value is None or not isinstance(rule, dict):
        return None
    limit = None
    for k in ("limit",) + tuple(aliases):
        if limit is None:
            limit = rule.get(k)
    limit = number(limit)
    op = rule.get("comparison", "<=")
    tol = rule.get("tolerance")
    tol = 0.0 if tol is None else number(tol)
    if limit is None or op not in ("<=", "<", ">=", ">", "==", "~=") or (op in ("==", "~=") and tol is None):
        return None
    if math.isnan(value) or math.isnan(limit):
        return False
    return {"<=": value <= limit, "<": value < limit, ">=": value >= limit, ">": value > limit,
            "==": abs(value - limit) <= (tol or 0.0), "~=": abs(value - limit) <= (tol or 0.0)}[op]


# ---- packages in scratch folders

SCRATCH = {}


def scratch():
    pid = os.getpid()
    if pid not in SCRATCH:
        d = tempfile.mkdtemp(prefix="vfp25-")
        SCRATCH[pid] = Path(d)
        import atexit
        from multiprocessing.util import Finalize
        Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
        atexit.register(shutil.rmtree, d, True)
    return SCRATCH[pid]


def pt(x, y):
    from yapcad.geom import point
    return point(x, y)


def prism(outline, holes, height, at):
    from yapcad.geom import point
    from yapcad.geom3d import poly2surfaceXY, translatesolid
    from yapcad.geom3d_util import extrude
    ring = lambda r: [pt(*p) for p in r + r[:1]]
    surf, _ = poly2surfaceXY(ring(list(outline)), [ring(list(h)) for h in holes])
    return translatesolid(extrude(surf, distance=float(height)), point(*at))


def area2(r):
    return abs(sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1]))) / 2


def moments(r):
    s = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(r, r[1:] + r[:1])) / 2
    cx = sum((a[0] + b[0]) * (a[0] * b[1] - b[0] * a[1]) for a, b in zip(r, r[1:] + r[:1])) / 6
    cy = sum((a[1] + b[1]) * (a[0] * b[1] - b[0] * a[1]) for a, b in zip(r, r[1:] + r[:1])) / 6
    return abs(s), cx * (1 if s > 0 else -1), cy * (1 if s > 0 else -1)


def length(r):
    return sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(r, r[1:] + r[:1]))


BOX = lambda w, d: ((0, 0), (w, 0), (w, d), (0, d))
OUTLINES = {
    "box": (BOX(10, 20), ()),
    "cube": (BOX(3, 3), ()),
    "ell": (((0, 0), (8, 0), (8, 2), (3, 2), (3, 7), (0, 7)), ()),
    "tri": (((0, 0), (9, 0), (2, 6)), ()),
    "frame": (BOX(12, 9), (((2, 2), (7, 2), (7, 6), (2, 6)),)),
}
PLACES = [(0, 0, 0), (40, -7, 3), (-100, 55.5, -12.25)]


def part_ref(part):
    name, height, place = part
    outer, holes = OUTLINES[name]
    at = PLACES[place]
    a, mx, my = moments(list(outer))
    peri = length(list(outer))
    for hole in holes:
        ha, hx, hy = moments(list(hole))
        a, mx, my = a - ha, mx - hx, my - hy
        peri += length(list(hole))
    xs, ys = [p[0] for p in outer], [p[1] for p in outer]
    return {"volume": a * height, "area": 2 * a + peri * height,
            "centroid": (mx / a + at[0], my / a + at[1], height / 2 + at[2]),
            "lo": (min(xs) + at[0], min(ys) + at[1], at[2]),
            "hi": (max(xs) + at[0], max(ys) + at[1], at[2] + height)}


def build_package(parts):
    """A package with the parts, made once per process and copied for each case."""
    from yapcad.package import create_package_from_entities
    base = scratch() / ("t" + "_".join("%s-%s-%s" % p for p in parts))
    if not base.exists():
        create_package_from_entities([prism(*OUTLINES[n], h_, PLACES[k]) for n, h_, k in parts],
                                     base, name="x", version="1").save()
    out = Path(tempfile.mkdtemp(dir=scratch())) / "p.ycpkg"
    shutil.copytree(base, out)
    return out


def run_plan(root, plan, name="plan.yaml"):
    import yaml
    from yapcad.package.analysis.cli import analyze_package
    path = root / "validation" / "plans" / name
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text(yaml.safe_dump(plan, sort_keys=False, allow_unicode=True), encoding="utf-8")
    return analyze_package(root, path)


def outcome(root, plan_id):
    from yapcad.package import PackageManifest
    found = [r for r in PackageManifest.load(root).data["validation"]["results"] if r["plan"] == plan_id]
    require(len(found) == 1, "%d entries for one plan" % len(found))
    entry = found[0]
    summary = json.loads((root / entry["path"]).read_text(encoding="utf-8"))
    require(summary["status"] == entry["status"], "summary and manifest differ: %r %r" % (summary["status"], entry["status"]))
    return entry, summary


# ---- criteria on the native backend

CRIT_PART = (("cube", 4, 0),)
V = 36.0
KEYS = {"volume": True, "volume_mm3": True, "volume.mm3": True, "part_count": True, "part.count": True,
        "volumes": False, "mass_kg": False, "volume.part_0": False, "": False}
METRIC = {"volume": V, "volume_mm3": V, "volume.mm3": V, "part_count": 1.0, "part.count": 1.0}
OPS = ["<=", "<", ">=", ">", "==", "~=", "absent", "=>", "\u2264", "=", "none", 3, "LE", ""]
LIMITS = ["below", "near below", "same", "near above", "above", "text", "absent", "none", "abc", "nan", "inf", "list", "true"]
TOLS = ["absent", "zero", "small", "large", "text", "none", "abc"]


def rule_of(key, op, limit, tol):
    v = METRIC.get(key, 5.0)
    rule = {}
    if limit != "absent":
        rule["limit"] = {"below": v - 2, "near below": v - 0.5, "same": v, "near above": v + 0.5, "above": v + 2,
                         "text": "%de0" % (v + 1), "none": None, "abc": "abc", "nan": NAN, "inf": float("inf"),
                         "list": [v], "true": True}[limit]
    if op != "absent":
        rule["comparison"] = None if op == "none" else op
    if tol != "absent":
        rule["tolerance"] = {"zero": 0, "small": 0.75, "large": 5, "text": "1e0", "none": None, "abc": "abc"}[tol]
    return rule


EPS = 1e-6


def exact(value, target):
    """The measured value may be off by rounding; take limits that equal it as met and not."""
    return abs(value - target) < EPS


def acceptance_case(rules, status, entry, summary, lookup, failed_key="failed_criteria"):
    refs = {k: ref_met(lookup(k), r) for k, r in rules.items()}
    if all(v is True for v in refs.values()):
        require(status == "passed", "all criteria are met but the plan is %r: %r" % (status, summary.get("statusDetail")))
    elif all(v is not None for v in refs.values()):
        require(status == "failed", "criteria %r are not met but the plan is %r" % ([k for k in refs if not refs[k]], status))
    else:
        require(status in ("error", "failed", "pending"), "criteria %r cannot be evaluated but the plan is %r" % (
            [k for k in refs if refs[k] is None], status))
    return refs


def judge_crit(case):
    """Criteria on the real native backend, each with the value it finds."""
    rules = {}
    for key, op, limit, tol in case:
        rules[key] = rule_of(key, op, limit, tol)
    root = build_package(CRIT_PART)
    try:
        plan = {"id": "c", "kind": "geometric", "backend": "yapcad", "check": {"property": "volume"}, "acceptance": rules}
        run_plan(root, plan)
        entry, summary = outcome(root, "c")
        status = entry["status"]
        measured = entry.get("metrics", {})
        if status != "error":
            require(abs(measured["volume"] - V) < EPS and measured["part_count"] == 1, "measured %r" % measured)
        # the exact value that was measured decides for limits that equal it
        value = {"volume": measured.get("volume", V), "part_count": 1.0}
        look = lambda k: None if not KEYS[k] else value["volume" if k.startswith("vol") else "part_count"]
        refs = acceptance_case(rules, status, entry, summary, look)
        if status == "failed":
            bad = {f["criterion"]: f for f in summary["failed_criteria"]}
            require(set(bad) == {k for k in refs if refs[k] is False}, "failed criteria %r, expected %r" % (sorted(bad), refs))
            require(len(summary["failed_criteria"]) == len(bad), "repeated failed criteria")
        else:
            require(not summary.get("failed_criteria"), "failed criteria of a plan that is %r" % status)
        if status in ("passed", "failed"):
            res = summary["acceptance_results"]
            require(set(res) == set(rules), "acceptance results for %r of %r" % (sorted(res), sorted(rules)))
            for k in rules:
                require(res[k]["passed"] is refs[k], "result %r of %r, expected %r" % (res[k], k, refs[k]))
                require(res[k]["value"] == look(k) and res[k]["comparison"] == rules[k].get("comparison", "<="), "result %r of %r" % (res[k], k))
        return Out(status, states=[h(repr(case))], steps=len(case))
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


def judge_backend(case):
    """The judging of criteria of the solver backends, on given metrics."""
    backend, rules_, values = case
    from yapcad.package.analysis.calculix import CalculixAdapter
    from yapcad.package.analysis.fenics import FenicsxAdapter
    from yapcad.package.analysis.yapcad_native import YapCADNativeAdapter
    cls = {"calculix": CalculixAdapter, "fenics": FenicsxAdapter, "native": YapCADNativeAdapter}[backend]
    if not hasattr(cls, "_evaluate_acceptance"):
        return None
    metrics = {k: NAN if v == "nan" else v for k, v in values}
    rules = {}
    for key, op, limit, alias, tol in rules_:
        r = {}
        if limit != "absent":
            r["limit_mm" if alias else "limit"] = limit if limit != "none" else None
        if op != "absent":
            r["comparison"] = op
        if tol != "absent":
            r["tolerance"] = tol
        rules[key] = r
    try:
        status = cls._evaluate_acceptance(object.__new__(cls), metrics, rules)
    except ValueError:
        if backend != "native":
            raise
        status = "error"
    def look(k):
        if metrics.get(k) is not None:
            return metrics[k]
        return metrics.get(k + "_mm") if backend != "native" else None
    refs = {k: ref_met(look(k), r, ("limit_mm",) if backend != "native" else ()) for k, r in rules.items()}
    if all(v is True for v in refs.values()):
        require(status == "passed", "%s: all criteria are met but %r" % (backend, status))
    elif any(v is False for v in refs.values()) and (backend != "native" or None not in refs.values()):
        require(status == "failed", "%s: a criterion is not met but %r (%r)" % (backend, status, refs))
    else:
        require(status in ("pending", "error"), "%s: criteria cannot be evaluated but %r (%r)" % (backend, status, refs))
    return Out(backend + status, states=[h(repr(case))], steps=len(rules))


# ---- measuring

FACTOR = {"mm": 1.0, "cm": 10.0, "m": 1000.0, "in": 25.4, "ft": 304.8}


def near(a, b, msg):
    require(isinstance(a, (int, float)) and abs(a - b) <= 1e-6 * max(1.0, abs(b)), "%s: %r, expected %r" % (msg, a, b))


def judge_measure(case):
    parts, prop, unit, axis, chosen, density, source = case
    root = build_package(parts)
    try:
        import json as js
        doc = js.loads((root / "geometry" / "primary.json").read_text())
        ids = [e["id"] for e in doc["entities"] if e["type"] == "solid"]
        require(len(ids) == len(parts), "%d solids of %d parts" % (len(ids), len(parts)))
        refs = [part_ref(p) for p in parts]
        plan = {"id": "m", "kind": "geometric", "backend": "yapcad", "check": {"property": prop}, "geometry": {}}
        if source == "primary":
            plan["geometry"]["source"] = "geometry/primary.json"
        elif source == "other":
            shutil.copy(root / "geometry" / "primary.json", root / "geometry" / "second.json")
            first = [e for e in doc["entities"] if e["type"] == "solid"][-1]
            keep = {s for s in first["shell"]} | {s for v in first.get("voids", []) for s in v}
            doc["entities"] = [e for e in doc["entities"] if e is first or (e["type"] == "surface" and e["id"] in keep)]
            (root / "geometry" / "second.json").write_text(js.dumps(doc))
            plan["geometry"]["source"] = "geometry/second.json"
            refs, ids = refs[-1:], ids[-1:]
        want = list(range(len(refs)))
        if chosen is not None:
            names = [("missing" if i >= len(ids) else ids[i]) for i in chosen]
            plan["geometry"]["entities"] = names
            if names:
                want = sorted(set(chosen))
        if unit is not None:
            plan["check"]["units"] = unit
        if axis is not None:
            plan["check"]["axis"] = axis
        if density is not None:
            plan["check"]["density_kgm3"] = density
        run_plan(root, plan)
        entry, summary = outcome(root, "m")
        if any(i >= len(refs) for i in want):
            require(entry["status"] == "error", "entities that do not exist: %r" % entry["status"])
            require(not entry.get("metrics"), "metrics of an error")
            return Out("unknown entity", states=[h(repr(case))], steps=1)
        dim = {"volume": 3, "area": 2, "bbox": 1}.get(prop)
        size = 1.0
        if dim and unit is not None:
            base = unit[:-1] if dim > 1 and unit.endswith(str(dim)) else (unit if dim == 1 else None)
            if base not in FACTOR:
                require(entry["status"] == "error", "unit %r: %r" % (unit, entry["status"]))
                return Out("bad unit", states=[h(repr(case))], steps=1)
            size = FACTOR[base] ** dim
        require(entry["status"] == "passed", "status %r %r" % (entry["status"], summary.get("statusDetail")))
        m, sel = entry["metrics"], [refs[i] for i in want]
        require(summary["metrics"] == m, "metrics of summary and manifest differ")
        near(m["part_count"], len(sel), "part count")
        if prop in ("volume", "area"):
            total = sum(r[prop] for r in sel)
            near(m[prop], total, prop)
            near(m["%s_%s" % (prop, unit or "mm%d" % dim)], total / size, "%s in %s" % (prop, unit))
            if len(sel) > 1:
                for i, r in enumerate(sel):
                    near(m["%s.part_%d" % (prop, i)], r[prop], "%s of part %d" % (prop, i))
        elif prop == "mass":
            rho = 2700.0 if density is None else float(density)
            total = sum(r["volume"] for r in sel)
            near(m["mass_kg"], total * 1e-9 * rho, "mass")
            near(m["mass_g"] / 1000, total * 1e-9 * rho, "mass in g")
            near(m["volume_mm3"], total, "volume")
            near(m["volume_m3"] * 1e9, total, "volume in m3")
            require(abs(m["mass_kg"] - total * 1e-9 * rho) <= 1e-9 * abs(total * 1e-9 * rho) + 1e-15, "mass %r" % m["mass_kg"])
            if len(sel) > 1:
                for i, r in enumerate(sel):
                    near(m["mass_kg.part_%d" % i] * 1e9, r["volume"] * rho, "mass of part %d" % i)
        elif prop == "centroid":
            total = sum(r["volume"] for r in sel)
            for k, ax in enumerate("xyz"):
                near(m["centroid." + ax], sum(r["volume"] * r["centroid"][k] for r in sel) / total, "centroid " + ax)
                if len(sel) > 1:
                    for i, r in enumerate(sel):
                        near(m["centroid.part_%d.%s" % (i, ax)], r["centroid"][k], "centroid of part %d" % i)
        else:
            lo = [min(r["lo"][k] for r in sel) for k in range(3)]
            hi = [max(r["hi"][k] for r in sel) for k in range(3)]
            for k, (ax, name) in enumerate((("x", "width"), ("y", "depth"), ("z", "height"))):
                near(m["bbox.%smin" % ax], lo[k], ax + "min")
                near(m["bbox.%smax" % ax], hi[k], ax + "max")
                near(m["bbox." + name], hi[k] - lo[k], name)
                if axis in (None, "all", ax):
                    near(m["bbox." + ax], hi[k] - lo[k], "bbox." + ax)
                    near(m["bbox.%s_%s" % (ax, unit or "mm")], (hi[k] - lo[k]) / size, "bbox.%s in %s" % (ax, unit))
            near(m["bbox.diagonal"], math.dist(lo, hi), "diagonal")
        return Out(prop, states=[h(repr(case))], steps=len(sel))
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


# ---- histories of solver runs

RUNS = ["good", "bad", "negative", "nan", "empty", "nothing", "crash", "crash after", "gone"]
DATS = {"good": [(1, 0.1, 0.25), (2, 0.9, -0.5)], "bad": [(1, 0.0, 0.1), (7, 0.0, 3.0), (9, 0.1, 0.2)],
        "negative": [(3, 0.2, -4.0), (4, 0.2, 1.0)], "nan": [(1, 0.0, 0.5), (2, 0.0, NAN), (3, 0.0, 0.25)], "empty": [],
        "crash after": [(1, 0.0, 0.125)]}
ACCEPT = {"none": {}, "le": {"displacement.max": {"limit_mm": 1.0}}, "mm": {"displacement.max_mm": {"limit": "1e0", "comparison": "<="}},
          "missing": {"stress.max": {"limit": 5}, "displacement.max": {"limit": 1}}, "eq": {"displacement.max": {"limit": 0.5, "comparison": "~=", "tolerance": 0.01}}}

SCRIPT = """#!/bin/sh
d="$(dirname "$0")"
[ -f "$d/dat" ] && cp "$d/dat" "$1.dat"
exit $(cat "$d/code")
"""


def tree(root):
    return {str(p.relative_to(root)) for p in root.rglob("*") if p.is_file()}


def judge_runs(case):
    accept, runs = case
    root = build_package(CRIT_PART)
    try:
        tool = root.parent / "tool"
        tool.mkdir()
        for i, run in enumerate(runs):
            exe = tool / "ccx"
            for f in ("dat", "code", "ccx"):
                (tool / f).unlink(missing_ok=True)
            if run != "gone":
                exe.write_text(SCRIPT)
                exe.chmod(0o755)
                (tool / "code").write_text("3" if run.startswith("crash") else "0")
                if run in DATS:
                    (tool / "dat").write_text(" displacements (vx,vy,vz) for set N_INNER and time  0.1000000E+01\n\n" + "".join(
                        "%10d %14.6E %14.6E %14.6E\n" % (n, u, w, 0) for n, u, w in DATS[run]))
            run_plan(root, {"id": "solve", "kind": "structural", "backend": "calculix", "acceptance": ACCEPT[accept],
                            "execution": {"mode": "local", "command": str(exe)},
                            "backendOptions": {"inner_radius_mm": 5, "outer_radius_mm": 20, "thickness_mm": 3, "radial_divisions": 3}})
            entry, summary = outcome(root, "solve")
            status = entry["status"]
            value = None
            if run in DATS and run != "crash after" and DATS[run]:
                ws = [abs(w) for _, _, w in DATS[run]]
                value = NAN if any(map(math.isnan, ws)) else max(ws)
            where = "run %d (%s)" % (i + 1, run)
            if run == "gone":
                want = "skipped"
            elif run.startswith("crash"):
                want = "error"
            elif value is None:
                want = "pending"
            elif accept == "none":
                want = "passed"
            else:
                refs = [ref_met({"displacement.max": value, "displacement.max_mm": value}.get(k), r, ("limit_mm",)) for k, r in ACCEPT[accept].items()]
                want = "failed" if False in refs else "pending" if None in refs else "passed"
            require(status == want, "%s of %r: %r, expected %r" % (where, runs, status, want))
            if value is None:
                require(not entry.get("metrics"), "%s of %r has metrics %r" % (where, runs, entry.get("metrics")))
            elif math.isnan(value):
                require(math.isnan(entry["metrics"]["displacement.max"]), "%s: metrics %r" % (where, entry["metrics"]))
            else:
                near(entry["metrics"]["displacement.max"], value, where)
                near(entry["metrics"]["displacement.max_mm"], value, where)
            kinds = [a["path"] for a in entry.get("artifacts", [])]
            for a in kinds:
                require((root / "validation" / "results" / "solve" / a).is_file(), "%s: artifact %r is not there" % (where, a))
            require(("solve.dat" in kinds) == (run in DATS and run != "crash after"), "%s of %r: artifacts %r" % (where, runs, kinds))
        return Out(runs[-1], states=[h(repr(case))], steps=len(runs))
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


CELLS = [-4.0, -0.5, 0.0, 0.25, 3.0, NAN]


def judge_table(case):
    """The largest displacement of every small table a solver can write."""
    from yapcad.package.analysis.base import AnalysisPlan
    from yapcad.package.analysis.calculix import CalculixAdapter
    work = Path(tempfile.mkdtemp(dir=scratch()))
    try:
        rows = [tuple(NAN if v == "nan" else v for v in r) for r in case]
        (work / "ccx").write_text(SCRIPT)
        (work / "ccx").chmod(0o755)
        (work / "code").write_text("0")
        half = (len(rows) + 1) // 2
        text = ""
        for name, part in (("N_INNER", rows[:half]), ("N_OUTER", rows[half:])):
            text += " displacements (vx,vy,vz) for set %s and time  0.1000000E+01\n\n" % name
            text += "".join("%10d " % (7 * i + 1) + " ".join("%14.6E" % v for v in r) + "\n" for i, r in enumerate(part)) + "\n"
        (work / "dat").write_text(text)
        plan = AnalysisPlan(plan_id="t", kind="structural", backend="calculix")
        plan.execution.command = str(work / "ccx")
        res = CalculixAdapter().run(None, plan, work / "out")
        got = res.metrics.get("displacement.max")
        ws = [abs(r[1]) for r in rows]
        want = NAN if any(map(math.isnan, ws)) else max(ws)
        require(got is not None and (math.isnan(got) if math.isnan(want) else abs(got - want) < 1e-6), "displacement %r, expected %r" % (got, want))
        return Out("table", states=[h(repr(case))], steps=len(rows))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def judge_mixed(case):
    """Runs of several plans in one package: each entry tells its own plan's last outcome."""
    root = build_package(CRIT_PART)
    try:
        last = {}
        for i, (plan_id, backend, what) in enumerate(case):
            plan = {"id": plan_id, "kind": "geometric", "backend": backend, "check": {"property": "volume"}}
            want = "pending"
            if backend == "yapcad":
                limit, want = {"pass": (100, "passed"), "fail": (1, "failed"), "error": (None, "error")}[what]
                plan["acceptance"] = {"volume": {"limit": limit}} if limit else {"volumina": {"limit": 1}}
            run_plan(root, plan, plan_id + ".yaml")
            last[plan_id] = (want, backend)
            for pid, (w, b) in last.items():
                entry, summary = outcome(root, pid)
                require(entry["status"] == w, "plan %s is %r, expected %r" % (pid, entry["status"], w))
                require(entry["backend"] == b, "plan %s by %r" % (pid, entry["backend"]))
                require(bool(entry.get("metrics")) == (w in ("passed", "failed")), "plan %s: %r with metrics %r" % (pid, w, entry.get("metrics")))
            from yapcad.package import PackageManifest
            plans = [p["id"] for p in PackageManifest.load(root).data["validation"]["plans"]]
            require(sorted(plans) == sorted(last), "plans %r" % plans)
        from yapcad.package.analysis.schema import validate_result_file
        for pid, (w, b) in last.items():
            rep = validate_result_file(root / "validation" / "results" / pid / "summary.json")
            require(rep.valid, "summary of %s is no valid result: %s" % (pid, rep))
        return Out(case[-1][2], states=[h(repr(case))], steps=len(case))
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


# ---- what is written where

IDS = ["a", "a b", "thrust-fea", "v1.2", "...", "..", ".", "../x", "../../x", "a/b", "/abs", "x/../../../y", "a\\b", "", " ", "..x", "\u00e9", "..\\x", 7, None, True, "a\nb", "x\0y"]


def judge_ids(case):
    plan_id, backend = case
    root = build_package(CRIT_PART)
    try:
        if isinstance(plan_id, str) and plan_id.startswith("/"):
            plan_id = str(root.parent) + plan_id
        before = {p: (root.parent / p).read_bytes() for p in tree(root.parent)}
        plan = {"id": plan_id, "kind": "structural", "backend": backend, "check": {"property": "volume"},
                "execution": {"command": "no-such-solver-here"}}
        try:
            run_plan(root, plan)
        except ValueError:
            after = {p: (root.parent / p).read_bytes() for p in tree(root.parent)}
            after.pop("p.ycpkg/validation/plans/plan.yaml", None)
            require(after == before, "a refused plan id %r changed %r" % (plan_id, sorted(set(after) ^ set(before))))
            require(not isinstance(plan_id, str) or not all(c.isalnum() or c in "-_. " for c in plan_id) or not plan_id.strip(" ."),
                    "plan id %r is refused" % (plan_id,))
            return Out("refused", states=[h(repr(case))], steps=1)
        new = {p for p in tree(root.parent)} - set(before)
        new -= {"p.ycpkg/validation/plans/plan.yaml"}
        folder = "p.ycpkg/validation/results/%s/" % (plan_id,)
        require(new and all(p.startswith(folder) for p in new), "plan id %r wrote %r" % (plan_id, sorted(new)))
        for p, data in before.items():
            if p != "p.ycpkg/manifest.yaml":
                require((root.parent / p).read_bytes() == data, "plan id %r changed %r" % (plan_id, p))
        return Out("inside", states=[h(repr(case))], steps=1)
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


SOURCES = ["geometry/primary.json", "./geometry/primary.json", "../outside.json", "geometry/../../outside.json", "ABS", "nowhere.json", ""]


def judge_source(case):
    """A plan's geometry source is read from the package or the run is an error."""
    source, = case
    root = build_package(CRIT_PART)
    try:
        (root.parent / "outside.json").write_bytes((root / "geometry" / "primary.json").read_bytes())
        src = str(root.parent / "outside.json") if source == "ABS" else source
        run_plan(root, {"id": "s", "kind": "geometric", "backend": "yapcad", "check": {"property": "volume"}, "geometry": {"source": src},
                        "acceptance": {"volume": {"limit": 100}}})
        entry, _ = outcome(root, "s")
        want = "passed" if source in ("", "geometry/primary.json", "./geometry/primary.json") else "error"
        require(entry["status"] == want, "source %r: %r" % (source, entry["status"]))
        return Out(want, states=[h(repr(case))], steps=1)
    finally:
        shutil.rmtree(root.parent, ignore_errors=True)


# ---- CalculiX input

def judge_deck(case):
    inner, outer, thick, nr, nz, thrust = case
    from yapcad.package.analysis.base import AnalysisPlan
    from yapcad.package.analysis.calculix import CalculixAdapter
    work = Path(tempfile.mkdtemp(dir=scratch()))
    try:
        plan = AnalysisPlan(plan_id="d", kind="structural", backend="calculix",
                            backend_options={"inner_radius_mm": inner, "outer_radius_mm": outer, "thickness_mm": thick,
                                             "radial_divisions": nr, "thickness_divisions": nz, "thrust_n": thrust})
        plan.execution.command = "no-such-solver-here"
        res = CalculixAdapter().run(None, plan, work)
        require(res.status == "skipped", "status %r" % res.status)
        blocks, name = {}, None
        for line in (work / "d.inp").read_text().splitlines():
            if line.startswith("*"):
                name = line.upper().replace(" ", "")
                blocks.setdefault(name, [])
            else:
                blocks[name].append([x.strip() for x in line.split(",") if x.strip()])
        nodes = {int(r[0]): (float(r[1]), float(r[2])) for r in blocks["*NODE"]}
        require(len(nodes) == len(blocks["*NODE"]) == (nr + 1) * (nz + 1) and set(nodes) == set(range(1, len(nodes) + 1)), "nodes")
        rr = lambda x: float("%.6g" % x)
        require(set(nodes.values()) == {(rr(inner + (outer - inner) * i / nr), rr(thick * j / nz)) for i in range(nr + 1) for j in range(nz + 1)}, "positions of nodes")
        elems = [tuple(map(int, r)) for k, v in blocks.items() if k.startswith("*ELEMENT") for r in v]
        require([e[0] for e in elems] == list(range(1, len(elems) + 1)) and len(elems) == nr * nz, "elements")
        edges = {}
        total = 0.0
        for e in elems:
            p = [nodes[n] for n in e[1:]]
            a = sum(p[k][0] * p[(k + 1) % 4][1] - p[(k + 1) % 4][0] * p[k][1] for k in range(4)) / 2
            require(a > 0, "element %r is turned over" % (e,))
            total += a
            for k in range(4):
                edges[(e[1 + k], e[1 + (k + 1) % 4])] = edges.get((e[1 + k], e[1 + (k + 1) % 4]), 0) + 1
        require(all(n == 1 for n in edges.values()), "an edge is used twice in one direction")
        free = sum(1 for a, b in edges if (b, a) not in edges)
        require(free == 2 * (nr + nz), "%d free edges" % free)
        require(abs(total - (outer - inner) * thick) <= 1e-4 * (outer - inner) * thick, "area %r" % total)
        ids = lambda key: {int(x) for r in blocks[key] for x in r}
        require(ids("*NSET,NSET=N_OUTER") == {n for n, q in nodes.items() if q[0] == rr(outer)}, "support nodes")
        require(ids("*NSET,NSET=N_INNER") == {n for n, q in nodes.items() if q[0] == rr(inner)}, "load nodes")
        require(blocks["*BOUNDARY"] == [["N_OUTER", "1", "2"]], "boundary")
        loads = blocks["*CLOAD"]
        require({int(r[0]) for r in loads} == ids("*NSET,NSET=N_INNER") and len(loads) == nz + 1, "loaded nodes")
        require(all(r[1] == "2" for r in loads), "direction of loads")
        require(abs(sum(float(r[2]) for r in loads) + thrust) <= 1e-4 * abs(thrust), "total load")
        gen = blocks["*ELSET,ELSET=EALL,GENERATE"][0]
        require(gen[:2] == ["1", str(len(elems))], "element set %r" % gen)
        require(res.artifacts[0]["path"] == "d.inp", "artifact")
        return Out("deck", states=[h(repr(case))], steps=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---- documents

KINDS = ["geometric", "measurement", "structural", "thermal", "cfd", "multiphysics", "assembly"]
PROPS = {"geometric": {"volume", "area", "bbox", "centroid", "distance", "clearance"},
         "measurement": {"dimension", "mass", "centroid", "moment"},
         "assembly": {"interference", "fit", "alignment", "clearance"}}
LOADS = {"pressure", "force", "moment", "gravity", "thermal", "displacement"}
BCS = {"fixed", "pinned", "roller", "spring", "symmetry", "thermal"}
ABSENT = "<absent>"
ANY = [ABSENT, None, "", " ", "x", 3, 0, 1.5, True, [], ["x"], {}, {"x": 1}]
FIELDS = {
    "id": ANY, "backend": ANY,
    "kind": [ABSENT, None, "", "Geometric", "fea", 3, [], ["geometric"], {}],
    "geometry": ANY + [{"source": "a"}, {"source": "a", "entities": []}, {"entities": "x"}, {"entities": ["b"]}],
    "acceptance": ANY + [{"m": {}}, {"m": {"limit": 1}}, {"m": {"limit": None}}, {"m": {"limit": "abc"}}, {"m": {"limit": "1e6"}}, {"m": {"limit": [1]}},
                         {"m": {"limit": 1, "comparison": "=="}}, {"m": {"limit": 1, "comparison": "=>"}}, {"m": {"limit": 1, "comparison": ["<="]}},
                         {"m": {"limit": 1, "comparison": None}}, {"m": {"limit": 1, "comparison": "~="}}, {"m": {"limit": 1, "comparison": "~=", "tolerance": 1}},
                         {"m": {"limit": 1}, "n": {}}, {"n": {}, "m": {"limit": 1}}, {"m": 3, "n": {"limit": 1}}, {"m": {"limit": 1}, "n": []}, {1: {"limit": 2}}],
    "check": ANY + [{"property": p} for p in ("volume", "mass", "centroid", "fit", "clearance", "moment", "nope", None, 3, ["volume"], {})],
    "materials": ANY,
    "loads": ANY + [[{}], [{"type": "force"}], [{"type": "force", "id": "a", "surfaces": []}], [{"type": "pull", "id": "a", "strategy": "z_min"}], [{"type": ["force"]}], [{"type": None}],
                    [{"type": "force", "id": 1, "strategy": "s"}, 3], [3, {"type": "gravity"}]],
    "boundaryConditions": ANY + [[{}], [{"type": "fixed"}], [{"type": "fixed", "id": "a", "surfaces": []}], [{"type": "glued"}], [{"type": {}}], [{"type": "force"}], [[], {"type": "roller", "id": "x", "strategy": "y"}]],
    "boundary_conditions": ANY + [[{}], [{"type": "thermal", "id": "a", "surfaces": []}], [{"type": "glued", "id": "q", "strategy": "a"}], [{"type": []}]],
    "faceNaming": [{}, 3], "attachments": [[], 3], "metadata": [{}, None], "name": ["n"], "execution": [{}], "description": ["d"], "backendOptions": [{}],
    "unknown": [1], 7: [1], "limit": [3],
}
COMMON = {"id", "kind", "backend", "name", "description", "geometry", "acceptance", "execution", "metadata", "attachments"}


def ref_plan(d):
    """Paths of errors and of warnings, from the text of the schema."""
    E, W = [], []
    if not {"id", "kind", "backend"} <= set(d):
        return [""], None
    kind = d["kind"]
    if not (isinstance(kind, str) and kind in KINDS):
        return ["kind"], None
    for k in ("id", "backend"):
        if not (isinstance(d[k], str) and d[k].strip()):
            E.append(k)
    if "geometry" in d:
        g = d["geometry"]
        if not isinstance(g, dict):
            E.append("geometry")
        else:
            if "source" not in g:
                W.append("geometry")
            if "entities" in g and not isinstance(g["entities"], list):
                E.append("geometry.entities")
    if "acceptance" in d:
        a = d["acceptance"]
        if not isinstance(a, dict):
            E.append("acceptance")
        else:
            for m, c in a.items():
                p = "acceptance.%s" % (m,)
                if not isinstance(c, dict):
                    E.append(p)
                    continue
                if "limit" not in c:
                    E.append(p)
                elif number(c["limit"]) is None:
                    E.append(p + ".limit")
                if "comparison" in c:
                    if not (isinstance(c["comparison"], str) and c["comparison"] in ("<=", ">=", "<", ">", "==", "~=")):
                        E.append(p + ".comparison")
                    elif c["comparison"] == "~=" and "tolerance" not in c:
                        W.append(p)
    known = set(COMMON)
    if kind in PROPS:
        known |= {"check"}
        if "check" not in d:
            E.append("")
        elif not isinstance(d["check"], dict):
            E.append("check")
        elif "property" not in d["check"]:
            E.append("check")
        elif not (isinstance(d["check"]["property"], str) and d["check"]["property"] in PROPS[kind]):
            E.append("check.property")
    else:
        known |= {"materials", "boundaryConditions", "boundary_conditions", "backendOptions", "faceNaming"}
        if kind != "cfd":
            known |= {"loads"}
        if "materials" in d and not isinstance(d["materials"], dict):
            E.append("materials")
        for field, types in (("loads", LOADS), ("boundaryConditions", BCS), ("boundary_conditions", BCS)):
            if field not in d:
                continue
            if not isinstance(d[field], list):
                E.append(field)
                continue
            for i, x in enumerate(d[field]):
                p = "%s[%d]" % (field, i)
                if not isinstance(x, dict):
                    E.append(p)
                    continue
                if "type" not in x:
                    E.append(p)
                elif not (isinstance(x["type"], str) and x["type"] in types):
                    E.append(p + ".type")
                if "id" not in x:
                    W.append(p)
                if "surfaces" not in x and "strategy" not in x:
                    W.append(p)
        if kind in ("structural", "thermal") and "materials" not in d:
            W.append("")
    W += [str(k) for k in d if k not in known]
    return E, W


def base_plan(kind):
    d = {"id": "a", "kind": kind, "backend": "yapcad"}
    if kind in PROPS:
        d["check"] = {"property": sorted(PROPS[kind])[0]}
    return d


def pick_value(field, i):
    return FIELDS[field][i]


def judge_plan(case):
    kind, edits, via = case
    d = base_plan(kind)
    for f, i in edits:
        v = pick_value(f, i)
        if isinstance(v, str) and v == ABSENT:
            d.pop(f, None)
        else:
            d[f] = v
    E, W = ref_plan(d)
    from yapcad.package.analysis import schema
    if via:
        import yaml
        path = Path(tempfile.mkdtemp(dir=scratch())) / "plan.yaml"
        path.write_text(yaml.safe_dump(d))
        try:
            rep = schema.validate_plan_file(path)
        finally:
            shutil.rmtree(path.parent, ignore_errors=True)
    else:
        rep = schema.validate_plan(d)
    check_report(rep, E, W)
    return Out("valid" if rep.valid else "invalid", states=[h(repr(case))], steps=len(edits))


def check_report(rep, E, W):
    require(rep.valid == (not E), "reported %s, expected errors %r, got %s" % (rep.valid, E, rep))
    require(sorted(e.path for e in rep.errors) == sorted(E), "errors at %r, expected %r" % ([e.path for e in rep.errors], E))
    if W is not None:
        require(sorted(w.path for w in rep.warnings) == sorted(W), "warnings at %r, expected %r" % ([w.path for w in rep.warnings], W))
    require(all(e.severity == "error" for e in rep.errors) and all(w.severity == "warning" for w in rep.warnings), "severity")
    require(("passed" in str(rep).splitlines()[0]) == rep.valid, "text of the report: %s" % rep)


RFIELDS = {
    "plan_id": ANY, "status": [ABSENT, None, "passed", "failed", "error", "skipped", "pending", "Passed", "ok", "", 1, ["passed"], {}],
    "metrics": ANY, "acceptance_results": ANY + [{"m": {}}, {"m": {"value": 1}}, {"m": {"passed": True}}, {"m": {"value": 1, "passed": False}}, {"m": 3, "n": {"value": 1, "passed": 1}}, {"n": {}, "m": []}],
    "artifacts": ANY + [[{}], [{"path": "a"}], [3, {"kind": "x"}], [{"path": "a"}, {}]],
    "backend": ["b"], "timestamp": ["t"], "notes": [3], "errors": [[]], "warnings": [[]], "execution_time_s": [1.0], "backend_version": ["1"], "plan": ["p"], 5: [5],
}
RKNOWN = {"plan_id", "status", "timestamp", "backend", "backend_version", "execution_time_s", "metrics", "acceptance_results", "artifacts", "errors", "warnings", "notes"}


def ref_result(d):
    E, W = [], []
    if not {"plan_id", "status"} <= set(d):
        return [""], None
    if not (isinstance(d["status"], str) and d["status"] in ("passed", "failed", "error", "skipped", "pending")):
        E.append("status")
    if not (isinstance(d["plan_id"], str) and d["plan_id"].strip()):
        E.append("plan_id")
    if "metrics" in d and not isinstance(d["metrics"], dict):
        E.append("metrics")
    if "acceptance_results" in d:
        a = d["acceptance_results"]
        if not isinstance(a, dict):
            E.append("acceptance_results")
        else:
            for m, r in a.items():
                p = "acceptance_results.%s" % (m,)
                if not isinstance(r, dict):
                    E.append(p)
                else:
                    W += [p] * (("value" not in r) + ("passed" not in r))
    if "artifacts" in d:
        a = d["artifacts"]
        if not isinstance(a, list):
            E.append("artifacts")
        else:
            for i, r in enumerate(a):
                if not isinstance(r, dict):
                    E.append("artifacts[%d]" % i)
                elif "path" not in r:
                    W.append("artifacts[%d]" % i)
    W += [str(k) for k in d if k not in RKNOWN]
    return E, W


def judge_result(case):
    d = {"plan_id": "a", "status": "passed"}
    for f, i in case:
        v = RFIELDS[f][i]
        if isinstance(v, str) and v == ABSENT:
            d.pop(f, None)
        else:
            d[f] = v
    E, W = ref_result(d)
    from yapcad.package.analysis import schema
    check_report(schema.validate_result(d), E, W)
    return Out("result", states=[h(repr(case))], steps=len(case))


FILES = [("yaml", ""), ("yaml", "- a\n"), ("yaml", "a: [1\n"), ("yaml", "3\n"), ("yaml", "id: a\nkind: cfd\nbackend: b\n"), ("yaml", None), ("yaml", "id: a\n"), ("yaml", "null\n"),
         ("json", ""), ("json", "[]"), ("json", "{"), ("json", "{}"), ("json", "null"), ("json", '{"plan_id": "a", "status": "passed"}'), ("json", None), ("json", '{"plan_id": "", "status": "passed"}')]


def judge_file(case):
    kind, text = case
    from yapcad.package.analysis import schema
    work = Path(tempfile.mkdtemp(dir=scratch()))
    try:
        path = work / "f"
        if text is not None:
            path.write_text(text)
        rep = (schema.validate_plan_file if kind == "yaml" else schema.validate_result_file)(path)
        good = text in ("id: a\nkind: cfd\nbackend: b\n", '{"plan_id": "a", "status": "passed"}')
        require(rep.valid == good and bool(rep.errors) != good, "%r: %s" % (text, rep))
        return Out("file", states=[h(repr(case))], steps=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)


SECTIONS = ["geometry", "materials", "loads", "boundaryConditions", "boundary_conditions", "acceptance", "backendOptions", "execution", "attachments"]
ATTR = {"boundaryConditions": "boundary_conditions", "backendOptions": "backend_options"}


def judge_load(case):
    """load_plan keeps what the file says; empty sections count as absent."""
    given = dict(case)
    import yaml
    from yapcad.package.analysis.base import load_plan
    lists = ("loads", "boundaryConditions", "boundary_conditions", "attachments")
    doc = {"id": "q", "kind": "structural", "backend": "CalculiX", "extra": 5}
    full = lambda s: [{"id": s}] if s in lists else ({"mode": "remote", "env": {"A": "1"}, "host": "h"} if s == "execution" else {s: 1})
    for s, how in given.items():
        if how != "absent":
            doc[s] = {"none": None, "empty": [] if s in lists else {}, "full": full(s)}[how]
            if s == "execution" and how == "inner none":
                doc[s] = {"env": None}
    work = Path(tempfile.mkdtemp(dir=scratch()))
    try:
        (work / "p.yaml").write_text(yaml.safe_dump(doc, sort_keys=False))
        plan = load_plan(work / "p.yaml")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    require((plan.plan_id, plan.kind, plan.backend, plan.normalized_backend) == ("q", "structural", "CalculiX", "calculix"), "identity")
    require(plan.metadata == {"extra": 5} and plan.raw == doc, "metadata %r" % plan.metadata)
    for s, how in given.items():
        if s == "execution":
            want = ("remote", {"A": "1"}, "h") if how == "full" else ("local", {}, None)
            require((plan.execution.mode, plan.execution.env, plan.execution.host) == want and plan.execution.is_remote == (how == "full"), "execution %r" % plan.execution)
        elif s == "boundary_conditions" and given.get("boundaryConditions", "absent") in ("empty", "full"):
            continue
        elif s == "boundaryConditions" and how in ("absent", "none"):
            continue
        else:
            want = full(s) if how == "full" else ([] if s in lists else {})
            require(getattr(plan, ATTR.get(s, s)) == want, "%s is %r" % (s, getattr(plan, ATTR.get(s, s))))
    return Out("load", states=[h(repr(case))], steps=1)


def run(ctx):
    crit = [((k, o, l, t),) for k in KEYS for o in OPS for l in LIMITS for t in (TOLS if o in ("==", "~=") else ["absent", "large"])]
    if not ctx.thorough:
        crit = [c for c in crit if c[0][0] in ("volume", "part.count") or (c[0][2] in ("below", "above", "same") and c[0][3] in ("absent", "small"))]
    few = [("volume", "<=", "above", "absent"), ("volume", ">", "above", "absent"), ("volume", "==", "near above", "small"), ("volume", "==", "near above", "zero"),
           ("volume", "=>", "above", "absent"), ("volume", "<=", "absent", "absent"), ("volume", "~=", "same", "small"), ("volume", "<", "nan", "absent")]
    rekey = lambda c, k: (k,) + c[1:]
    pair = [(rekey(a, k), rekey(b, l)) for k, l in (("volume", "part_count"), ("volume_mm3", "volumes"), ("volumes", "volume"), ("volume.mm3", "volume")) for a in few for b in few]
    trip = [(rekey(a, "part_count"), rekey(b, "volume"), rekey(c, "volume_mm3")) for a in few for b in few for c in few]
    ctx.explore(judge, [("crit", crit + pair + trip)], batch=20)

    vals = [("a", 1.0), ("a", 2.0), ("a", 3.0), ("a", "nan"), ("a_mm", 1.0), ("b", 1.0), ("a", 0), ("a_mm", 0)]
    one = [("a", o, l, al, t) for o in ("<=", "<", ">=", ">", "==", "~=", "absent", "=>", "") for l in (2, "2", 0, "absent", "none", "abc") for al in (0, 1)
           for t in ("absent", 1, "1", 0.5)]
    back = [(be, (r,), (v,)) for be in ("calculix", "fenics", "native") for r in one for v in vals]
    small = [(o, l) for o in ("<=", ">", "==", "?") for l in (2, "absent")]
    back += [(be, (("a", o1, l1, 0, "absent"), ("b", o2, l2, 0, "absent")), vs) for be in ("calculix", "fenics", "native") for o1, l1 in small for o2, l2 in small
             for vs in ((("a", 1.0), ("b", 1.0)), (("a", 3.0), ("b", 1.0)), (("a", 1.0), ("b", 3.0)), (("a", 2), ("b", 2)), (("a", 1.0),), (("b", 3.0),), (("b", 1.0), ("a", "nan")))]
    ctx.explore(judge, [("backend", back)], batch=100)

    singles = [((n, h, p),) for n in OUTLINES for h in (1, 4.5, 30) for p in range(3)]
    lists = singles + [(("box", 2, 0), ("cube", 3, 1)), (("ell", 4, 1), ("tri", 2, 2)), (("frame", 5, 2), ("box", 1, 0), ("cube", 2, 1)),
                       (("cube", 1, 0), ("cube", 1, 1), ("cube", 1, 2)), (("frame", 2, 1), ("ell", 3, 1))]
    meas = [(ps, prop, None, None, None, None, None) for ps in lists for prop in ("volume", "area", "bbox", "mass", "centroid")]
    multi = lists[len(singles):]
    for ps in multi + singles[:2]:
        n = len(ps)
        for ch in [()] + [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)] + [(n,), (0, n), tuple(range(n))[::-1]]:
            for prop in ("volume", "bbox", "centroid", "mass", "area"):
                meas.append((ps, prop, None, None, ch, None, None))
        for prop in ("volume", "bbox", "mass"):
            for src in ("primary", "other"):
                meas += [(ps, prop, None, None, None, None, src), (ps, prop, None, None, (0,), None, src)]
    for ps in (lists[0], multi[0], multi[2]):
        for prop, dim in (("volume", "3"), ("area", "2"), ("bbox", "")):
            for u in ("mm", "cm", "m", "in", "ft", "parsec", ""):
                meas.append((ps, prop, u + dim, None, None, None, None))
            meas += [(ps, prop, u, None, None, None, None) for u in ("mm2", "mm3", "mm", "cm3")]
        for axis in ("x", "y", "z", "all"):
            for u in (None, "mm", "cm"):
                meas.append((ps, "bbox", u, axis, None, None, None))
        for rho in (1, 7850, "2.7e3", 0, 1240.5):
            meas.append((ps, "mass", None, None, None, rho, None))
    ctx.explore(judge, [("measure", list(dict.fromkeys(meas)))], batch=8)

    depth = 3
    hist = [(acc, seq) for acc in ACCEPT for k in range(1, depth + 1) for seq in itertools.product(RUNS, repeat=k)
            if k < 3 or ctx.thorough or (acc == "le" and seq[0] in ("good", "bad", "crash"))]
    ctx.explore(judge, [("runs", hist)], batch=10)
    cell = ["nan" if v != v else v for v in CELLS]
    tab = [tuple((u, w, 0.0) for u, w in zip((0.5, 0.0, -9.0, 1.0), ws)) for n in (1, 2, 3) for ws in itertools.product(cell, repeat=n)]
    tab += [tuple((0.0, w, 0.0) for w in ws) for n in (2, ctx.pick(3, 4)) for ws in itertools.product(cell, repeat=n)]
    ctx.explore(judge, [("table", tab)], batch=20)
    acts = [("mass-2", "yapcad", "pass"), ("mass-2", "yapcad", "fail"), ("mass-2", "yapcad", "error"), ("mass-2", "none", "pending"), ("mass", "yapcad", "pass"), ("mass", "yapcad", "error"), ("mass", "none", "pending")]
    ctx.explore(judge, [("mixed", [s for k in range(1, ctx.pick(4, 5)) for s in itertools.product(acts, repeat=k)])], batch=10)
    ctx.explore(judge, [("ids", [(i, b) for i in IDS for b in ("yapcad", "calculix", "none")]), ("source", [(s,) for s in SOURCES])], batch=5)
    ctx.explore(judge, [("deck", [(i, o, t, nr, nz, f) for i, o in ((0, 1), (0, 50), (5, 20), (50.8, 152.4), (0.1, 0.3), (999, 1000)) for t in (0.5, 3, 12)
                                  for nr in (1, 2, 5, ctx.pick(24, 60)) for nz in (1, 2, 3, 7) for f in (1, 2224.0, 1e6)])], batch=20)

    edits = [(f, i) for f in FIELDS for i in range(len(FIELDS[f]))]
    plans = [(k, (), 0) for k in KINDS] + [(k, (e,), v) for k in KINDS for e in edits for v in (0, 1)]
    two = [(k, (a, b), 0) for k in KINDS for a, b in itertools.combinations(edits, 2) if a[0] != b[0]]
    if not ctx.thorough:
        two = [t for t in two if t[0] in ("geometric", "structural", "cfd") and t[1][0][1] % 2 == 0]
    ctx.explore(judge, [("plan", plans + two)], batch=500)
    redits = [(f, i) for f in RFIELDS for i in range(len(RFIELDS[f]))]
    ctx.explore(judge, [("result", [()] + [(e,) for e in redits] + [(a, b) for a, b in itertools.combinations(redits, 2) if a[0] != b[0]]), ("file", FILES)], batch=500)
    how = ["absent", "none", "empty", "full"]
    load = [((s, a),) for s in SECTIONS for a in how] + [((s, a), (t, b)) for s, t in itertools.combinations(SECTIONS, 2) for a in how for b in how]
    ctx.explore(judge, [("load", load)], batch=50)
    ctx.assumptions.append("the solver is a stand-in script; FEniCSx, gmsh and CalculiX are not installed here")
