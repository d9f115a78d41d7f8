"""P06: a package validates exactly when everything its manifest records is there, unchanged."""
import itertools
import json
import os
import shutil

import yaml

from mc import pkg
from mc.core import Out, h, require

META = {
    "id": "P06",
    "title": "A package validates exactly when its manifest and every recorded file are intact",
    "statement": "Any package built through the package API, with whatever geometry, materials, extra files and hash algorithm, passes validation and loads back the geometry that was packaged. Validation fails as soon as any recorded file is missing, outside the package, not a plain file or differs by even one byte from its recorded hash, or the primary geometry is not a readable geometry document. On any manifest, however malformed, validation answers with a verdict and messages (an ERROR message exactly when it fails) and never raises.",
    "over": ["inputs"],
    "forall": "every single-byte flip, insertion, deletion and truncation of every recorded file, every deletion or retyping of every manifest node, every one-byte change of the manifest text",
    "why": "The suite tampers with one file in one way; a validator that skips a section, compares a prefix, trusts one hash algorithm or stops at the first success passes it.",
    "files": ["src/yapcad/package/validator.py", "src/yapcad/package/core.py"],
    "mech": [["hash comparison of each recorded file", "package/validator.py:_check_file"], ["walk over every manifest section", "package/validator.py:validate_package"], ["hash recording", "package/core.py:recompute_hashes"]],
    "technique": "exhaustive fault enumeration: every single tamper of every file and manifest node of real packages, verdict compared with an independent reference validator",
    "note": "6 package shapes x 4 hash algorithms; every byte position of small files, every 3rd (quick) or every byte (thorough) of the geometry document; ~12 retypings of every manifest node",
}

SHAPES = {
    "tiny": dict(ents="tiny", derived=(b"STEP A",)),
    "bare": dict(ents="solid"),
    "full": dict(ents="two", materials=pkg.MATERIALS, derived=(b"STEP A", b"STEP BB"), attach=(b"hello", b""), exports=(b"solid x", b"\x00\x01\xff")),
    "block": dict(ents="block", attach=(b"z",)),
    "mixed": dict(ents="mixed", derived=(b"q" * 70000,)),
    # larger than any plausible read buffer, so that every chunk of the hash is exercised
    "mega": dict(ents="tiny", derived=(bytes(range(256)) * (9 << 10) + b"tail",)),
}
ALG = ["sha256", "sha1", "sha512", "blake2b"]
_PK = {}


def get(shape, algo):
    """(root, data, {relpath: bytes}) of a pristine package, built once per worker."""
    k = (shape, algo, os.getpid())
    if k not in _PK:
        root = os.path.join(pkg.scratch(), "%s_%s.ycpkg" % (shape, algo))
        pkg.build(root, algo=algo, **SHAPES[shape])
        files = {}
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    files[os.path.relpath(p, root)] = fh.read()
        _PK[k] = (root, yaml.safe_load(files["manifest.yaml"]), files)
    return _PK[k]


def restore(root, rel, data):
    p = os.path.join(root, rel)
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.islink(p):
        os.unlink(p)
    pkg.write(p, data)


def listed(data):
    g = data["geometry"]
    out = [("primary", g["primary"])]
    for i, e in enumerate(g.get("derived") or []):
        out.append(("derived%d" % i, e))
    for s in ("exports", "attachments"):
        for i, e in enumerate(data.get(s) or []):
            out.append(("%s%d" % (s, i), e))
    return out


def verdict(root, strict=False):
    from yapcad.package import validate_package

    r = validate_package(root, strict=strict)
    require(isinstance(r, tuple) and len(r) == 2, "validate_package returned %r" % (r,))
    ok, msgs = r
    require(isinstance(ok, bool) and isinstance(msgs, list) and all(isinstance(m, str) for m in msgs),
            "verdict is not (bool, [str]): %r" % (r,))
    err = any(m.startswith("ERROR") for m in msgs)
    require(err == (not ok), "verdict %s but messages %s" % (ok, msgs))
    return ok, msgs


def geometry_ok(path):
    """The reference only needs: is it a JSON document of the geometry schema that loads?"""
    from yapcad.io.geometry_json import geometry_from_json

    try:
        with open(path, encoding="utf-8") as f:
            geometry_from_json(json.load(f))
        return True
    except Exception:
        return False


def node_paths(d, pre=()):
    yield pre
    if isinstance(d, dict):
        for k in d:
            yield from node_paths(d[k], pre + (k,))
    elif isinstance(d, list):
        for i in range(len(d)):
            yield from node_paths(d[i], pre + (i,))


RETYPE = [None, 0, 1, True, "", "x", "/etc/hostname", "../x", ".", [], {}, ["x"], [None], [[]], {"x": 1}, 1.5, [0, 0, 0], {"path": 3}, {"type": []}, "sha256:", "md4:00", "shake_128:00", "none"]


def edit(d, path, val):
    if not path:
        return val
    d = json.loads(json.dumps(d, default=str))
    cur = d
    for p in path[:-1]:
        cur = cur[p]
    if val == "__del__":
        del cur[path[-1]]
    else:
        cur[path[-1]] = val
    return d


def judge(kind, case):
    if kind == "clean":
        return judge_clean(*case)
    shape, algo = case[0], case[1]
    root, data, files = get(shape, algo)
    if kind == "bytes":
        rel, op, pos = case[2:]
        return judge_bytes(root, data, files, rel, op, pos)
    if kind == "whole":
        which, op = case[2:]
        return judge_whole(root, data, files, which, op)
    if kind == "node":
        path, val = case[2:]
        return judge_manifest(root, files, yaml.safe_dump(edit(data, path, val)).encode(), case[1:])
    if kind == "pair":
        (p1, v1), (p2, v2) = case[2:]
        d = edit(data, p1, v1)
        try:
            d = edit(d, p2, v2)
        except (KeyError, IndexError, TypeError):
            return Out("unreachable")
        return judge_manifest(root, files, yaml.safe_dump(d).encode(), None)
    if kind == "text":
        pos, op = case[2:]
        t = files["manifest.yaml"]
        return judge_manifest(root, files, mutate(t, op, pos), None)
    raise KeyError(kind)


def judge_clean(shape, algo, algo2, strict):
    from yapcad.io.geometry_json import geometry_to_json
    from yapcad.package import PackageManifest, load_geometry

    root = os.path.join(pkg.scratch(), "clean_%s_%s_%s.ycpkg" % (shape, algo, algo2))
    try:
        m = pkg.build(root, algo=algo, **SHAPES[shape])
        if algo2:
            m.recompute_hashes(algorithm=algo2)
            m.save()
        ok, msgs = verdict(root, strict)
        require(ok, "a freshly built package does not validate: %s" % msgs)
        m2 = PackageManifest.load(root)
        require(m2.data == m.data, "manifest changed by save and load: %s vs %s" % (m.data, m2.data))
        for name, e in listed(m2.data):
            with open(os.path.join(root, e["path"]), "rb") as f:
                b = f.read()
            want = algo2 or algo
            if name.startswith(("derived", "attachments")) and not algo2 and algo == "sha256":
                want = "sha256"
            require(e.get("hash") == pkg.digest(b, want), "%s records %s, content is %s" % (name, e.get("hash"), pkg.digest(b, want)))
        shp = SHAPES[shape]
        got = [open(os.path.join(root, e["path"]), "rb").read() for n, e in listed(m2.data) if not n.startswith("primary")]
        exp = list(shp.get("derived", ())) + list(shp.get("exports", ())) + list(shp.get("attach", ()))
        require(got == exp, "bundled files differ from their sources")
        # geometry comes back as packaged
        a = strip(geometry_to_json(pkg.entities(shp["ents"])))
        b = strip(geometry_to_json(load_geometry(m2)))
        for d in (a, b):  # which entity kind comes first is not part of the property
            d["entities"].sort(key=lambda e: json.dumps(e, sort_keys=True))
        require(a == b, "geometry read back differs from what was packaged")
        # materials: those given, else one placeholder per referenced name
        mats = m2.get_materials()
        if shp.get("materials"):
            require(mats == pkg.MATERIALS, "materials changed: %s" % mats)
            require(m2.get_material("glue") == pkg.MATERIALS["glue"] and m2.get_material("no") is None, "get_material")
        else:
            want = {"tiny": [], "solid": [], "two": ["steel"], "block": ["alu"], "mixed": ["alu", "steel"]}[shp["ents"]]
            require(list(mats) == want, "material placeholders %s, entities reference %s" % (list(mats), want))
        want = {"two": ["a", "b"]}.get(shp["ents"], [])
        require(m2.data["tags"] == want, "tags %s, want %s" % (m2.data["tags"], want))
        return Out("valid", steps=len(listed(m2.data)))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def strip(doc):
    """Geometry content without identifiers and provenance."""
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k not in ("id", "generator", "entityId", "timestamp", "created")
                and not (isinstance(v, str) and len(v) == 36 and v.count("-") == 4)}
    if isinstance(doc, list):
        if doc and all(isinstance(v, str) and len(v) == 36 for v in doc):
            return len(doc)
        return [strip(v) for v in doc]
    return doc


def mutate(b, op, pos):
    if op == "flip":
        return b[:pos] + bytes([b[pos] ^ 1]) + b[pos + 1:]
    if op == "high":
        return b[:pos] + bytes([b[pos] ^ 0x80]) + b[pos + 1:]
    if op == "del":
        return b[:pos] + b[pos + 1:]
    if op == "ins":
        return b[:pos] + b" " + b[pos:]
    if op == "cut":
        return b[:pos]
    raise KeyError(op)


def judge_bytes(root, data, files, rel, op, pos):
    new = mutate(files[rel], op, pos)
    if new == files[rel]:
        return Out("same")
    try:
        restore(root, rel, new)
        ok, msgs = verdict(root)
        require(not ok, "%s of byte %d of %s goes unnoticed" % (op, pos, rel), "tamper")
        require(any(rel in m for m in msgs), "%s was changed but no message names it: %s" % (rel, msgs))
        return Out("detected:" + op, [h((rel, op, pos))])
    finally:
        restore(root, rel, files[rel])


def judge_whole(root, data, files, which, op):
    entry = dict(listed(data))[which]
    rel = entry["path"]
    p = os.path.join(root, rel)
    try:
        if op == "remove":
            os.unlink(p)
        elif op == "dir":
            os.unlink(p)
            os.mkdir(p)
        elif op == "dangling":
            os.unlink(p)
            os.symlink(os.path.join(root, "nothing-here"), p)
        elif op == "outside":
            # an identical file, but outside the package
            other = os.path.join(pkg.scratch(), "outside.bin")
            pkg.write(other, files[rel])
            os.unlink(p)
            os.symlink(other, p)
        elif op == "append":
            restore(root, rel, files[rel] + b"\n")
        elif op == "empty":
            if not files[rel]:
                return Out("same")
            restore(root, rel, b"")
        elif op == "otherfile":
            o = [e["path"] for n, e in listed(data) if n != which]
            if not o:
                return Out("same")
            restore(root, rel, files[o[0]])
        elif op == "case":
            # hex digests compare case-insensitively: still the same file
            d = json.loads(json.dumps(data, default=str))
            dict(listed(d))[which]["hash"] = dict(listed(d))[which]["hash"].upper()
            restore(root, "manifest.yaml", yaml.safe_dump(d).encode())
            ok, msgs = verdict(root)
            require(ok, "upper-case digest refused: %s" % msgs)
            return Out("case")
        ok, msgs = verdict(root)
        require(not ok, "%s of %s goes unnoticed" % (op, rel), "tamper")
        return Out("detected:" + op)
    finally:
        restore(root, rel, files[rel])
        restore(root, "manifest.yaml", files["manifest.yaml"])


def judge_manifest(root, files, text, label):
    try:
        restore(root, "manifest.yaml", text)
        ok, msgs = verdict(root)
        verdict_strict, _ = verdict(root, strict=True)
        try:
            data = yaml.safe_load(text.decode("utf-8")) or {}
            want = pkg.ref_valid(root, data, geometry_ok)
        except (yaml.YAMLError, UnicodeDecodeError, ValueError):
            want = False
        require(ok == want, "verdict %s, the manifest is %s: %s" % (ok, "valid" if want else "not valid", msgs))
        require(verdict_strict == ok, "strict validation changed the verdict to %s" % verdict_strict)
        return Out("valid" if ok else "invalid", [h(text)])
    finally:
        restore(root, "manifest.yaml", files["manifest.yaml"])


def run(ctx):
    with pkg.Scratch():
        drivers = []
        drivers.append(("clean", ((s, a, b, st) for s in SHAPES for a in ALG for b in [None] + ALG for st in (False, True)), 10))
        # file lists: take them from the real packages (built here, then rebuilt per worker)
        infos = {s: get(s, "sha256") for s in SHAPES}

        def whole():
            for s in SHAPES:
                for a in ALG:
                    for name, _ in listed(infos[s][1]):
                        for op in ("remove", "dir", "dangling", "outside", "append", "empty", "otherfile", "case"):
                            yield (s, a, name, op)

        def bts():
            for s, algs in (("full", ALG[:2]), ("tiny", ctx.pick(ALG[:1], ALG)), ("block", ctx.pick((), ALG[:1])), ("mixed", ctx.pick(ALG[:1], ALG[:1]))):
                root, data, files = infos[s]
                for a in algs:
                    for name, e in listed(data):
                        b = files[e["path"]]
                        step = 1
                        if len(b) > 200:
                            if s != "tiny":
                                step = ctx.pick(len(b) // 40 + 1, len(b) // 400 + 1)
                            else:
                                step = ctx.pick(3, 1)
                        for pos in sorted(set(range(0, len(b), step)) | ({len(b) - 1} if b else set())):
                            for op in ("flip", "high", "del", "ins", "cut"):
                                yield (s, a, e["path"], op, pos)

            b = infos["mega"][2]
            rel = next(e["path"] for _, e in listed(infos["mega"][1]) if len(b[e["path"]]) > 1 << 20)
            n = len(b[rel])
            for pos in sorted({p for k in range(0, n + 1, ctx.pick(1 << 16, 1 << 13)) for p in (k - 1, k) if 0 <= p < n} | {n - 1}):
                for op in ctx.pick(("flip", "cut"), ("flip", "high", "del", "ins", "cut")):
                    yield ("mega", "sha256", rel, op, pos)

        def nodes():
            for s in ctx.pick(("full", "block"), tuple(SHAPES)):
                if s == "mega":
                    continue
                for p in node_paths(infos[s][1]):
                    if p:
                        yield (s, "sha256", list(p), "__del__")
                    for v in RETYPE:
                        yield (s, "sha256", list(p), v)

        def pairs():
            # two independent damages; the second must not hide the first
            full = infos["full"][1]
            spots = [p for p in node_paths(full) if p and p[-1] in ("hash", "path", "schema", "type", "derived", "exports", "attachments", "source")]
            vals = ctx.pick(["__del__", "x"], ["__del__", None, "x", [], {}])
            for p, q in itertools.combinations(spots, 2):
                for v in vals:
                    for w in vals:
                        yield ("full", "sha256", [list(p), v], [list(q), w])

        def text():
            t = infos["full"][2]["manifest.yaml"]
            for pos in range(0, len(t), ctx.pick(2, 1)):
                for op in ctx.pick(("flip", "del", "cut"), ("flip", "high", "del", "ins", "cut")):
                    yield ("full", "sha256", pos, op)

        drivers += [("whole", whole(), 16), ("node", nodes(), 48), ("pair", pairs(), 48), ("text", text(), 48), ("bytes", bts(), 64)]
        ctx.assumptions.append("hash functions are collision-free on the explored tampers")
        ctx.explore(judge, drivers)
