"""P07: package edit histories and crashes keep manifest and files in step."""
import builtins
import io
import itertools
import json
import os
import shutil

import yaml

from mc import pkg
from mc.core import Out, Violation, h, require

META = {
    "id": "P07",
    "title": "Package edit histories and crashes never leave a silently wrong package",
    "statement": "After any sequence of creating, adding or replacing files in any category, editing files in place, recomputing hashes, saving and reloading, the manifest records each file exactly once with its current hash (or validation reports the file that changed), refused operations leave package and manifest untouched, and the package equals the one the history describes. If the process dies at any write, a package that still validates holds exactly the old or the new content, and an interrupted save keeps a readable manifest.",
    "over": ["histories", "crash points"],
    "forall": "every history of up to 3 (quick) / 4 (thorough) of 17 operations, and every crash point, torn or complete, of every write of each operation",
    "why": "The suite performs single operations without failures; stale entries and torn manifests need a particular sequence or a crash between two particular writes.",
    "files": ["src/yapcad/package/core.py", "src/yapcad/package/validator.py", "src/yapcad/dsl/packaging.py"],
    "mech": [["one entry per file", "package/core.py:add_geometry_file"], ["atomic manifest save", "package/core.py:PackageManifest.save"], ["refusals before any effect", "package/core.py:add_geometry_file"]],
    "technique": "exhaustive enumeration of operation histories against a reference model of the package, plus exhaustive crash-point injection at every file-system effect",
    "note": "17 operations; histories to depth 3 (quick) / 4 (thorough); every write, rename, copy and mkdir of 8 operations crashed before, in the middle and after; process death is simulated at the Python file API (no kernel write reordering)",
}

# operation = (name, params)
ADDS = {
    "addA1": ("a.step", b"A one", dict()),
    "addA2": ("a.step", b"A two!", dict(overwrite=True)),
    "addA2no": ("a.step", b"A two!", dict()),
    "attA1": ("a.step", b"A one", dict(category="attachments")),
    "attSame": ("a.step", b"A three", dict(category="attachments", dest_relative="geometry/derived/a.step", overwrite=True)),
    "derSame": ("n.txt", b"note", dict(dest_relative="attachments/a.step", overwrite=True, metadata={"k": [1]})),
    "addSub": ("b.stl", b"", dict(dest_relative="geometry/derived/deep/b.stl", purpose="why")),
    "badCat": ("a.step", b"A bad", dict(category="exports", overwrite=True)),
    "badAbs": ("a.step", b"A bad", dict(dest_relative="/tmp/zz_verif_never", overwrite=True)),
    "badUp": ("a.step", b"A bad", dict(dest_relative="geometry/../../up.step", overwrite=True)),
    "badSrc": (None, None, dict(overwrite=True)),
}
OTHER = ["edit", "recompute", "save", "reload", "create", "createno"]
OPS = list(ADDS) + OTHER


class Model:
    """What the history says the package contains."""

    def __init__(self):
        self.files = {}      # relpath -> bytes (recorded files other than the primary)
        self.derived = []    # [path, recorded content, extras]
        self.attach = []
        self.ents = "solid"
        self.disk = None     # manifest state last saved: (derived, attach, ents)
        self.snap()

    def state(self):
        return json.loads(json.dumps([[[p, c.hex(), x] for p, c, x in self.derived], [[p, c.hex(), x] for p, c, x in self.attach], self.ents]))

    def snap(self):
        self.disk = self.state()

    def unsnap(self):
        d, a, e = self.disk
        self.derived = [[p, bytes.fromhex(c), x] for p, c, x in d]
        self.attach = [[p, bytes.fromhex(c), x] for p, c, x in a]
        self.ents = e


def dest(name, kw):
    return kw.get("dest_relative") or ("attachments/" if kw.get("category") == "attachments" else "geometry/derived/") + name


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def create(root, ents, overwrite=False):
    from yapcad.package import create_package_from_entities

    return create_package_from_entities(pkg.entities(ents), root, name="n", version="1", overwrite=overwrite)


def apply_real(op, root, src, m):
    """Run one operation on the real package.  Returns (manifest, refused)."""
    from yapcad.package import PackageManifest, add_geometry_file

    if op in ADDS:
        name, data, kw = ADDS[op]
        if name is None:
            p = os.path.join(src, "does-not-exist")
        else:
            p = os.path.join(src, name)
            pkg.write(p, data)
        try:
            e = add_geometry_file(m, p, **json.loads(json.dumps(kw)))
        except (ValueError, FileExistsError, FileNotFoundError) as x:
            return m, type(x).__name__
        sec = m.data["attachments"] if kw.get("category") == "attachments" else m.data["geometry"]["derived"]
        require(sec and sec[-1] == e, "the returned entry is not the recorded one")
        return m, None
    if op == "edit":
        for f in ("geometry/derived/a.step", "attachments/a.step"):
            p = os.path.join(root, f)
            if os.path.exists(p):
                with open(p, "ab") as fh:
                    fh.write(b"+")
        return m, None
    if op == "recompute":
        m.recompute_hashes()
        return m, None
    if op == "save":
        m.save()
        return m, None
    if op == "reload":
        return PackageManifest.load(root), None
    if op == "create":
        return create(root, "two", True), None
    if op == "createno":
        try:
            create(root, "tiny")
        except FileExistsError:
            return m, "FileExistsError"
        return m, None


def apply_model(op, M):
    """Returns the expected refusal (or None)."""
    if op in ADDS:
        name, data, kw = ADDS[op]
        if name is None:
            return "FileNotFoundError"
        if op in ("badCat", "badAbs", "badUp"):
            return "ValueError"
        d = dest(name, kw)
        if d in M.files and not kw.get("overwrite"):
            return "FileExistsError"
        M.files[d] = data
        M.derived = [x for x in M.derived if x[0] != d]
        M.attach = [x for x in M.attach if x[0] != d]
        extras = dict(kw.get("metadata") or {})
        if "purpose" in kw:
            extras["purpose"] = kw["purpose"]
        if kw.get("category") == "attachments":
            extras["id"] = os.path.splitext(os.path.basename(d))[0]
            M.attach.append([d, data, extras])
        else:
            M.derived.append([d, data, extras])
        return None
    if op == "edit":
        for f in ("geometry/derived/a.step", "attachments/a.step"):
            if f in M.files:
                M.files[f] += b"+"
    elif op == "recompute":
        for x in M.derived + M.attach:
            x[1] = M.files[x[0]]
    elif op == "save":
        M.snap()
    elif op == "reload":
        M.unsnap()
    elif op == "create":
        M.derived, M.attach, M.ents = [], [], "two"
        M.snap()
    elif op == "createno":
        return "FileExistsError"
    return None


def check_entries(what, entries, want):
    got = []
    for e in entries or []:
        got.append([e["path"], e["hash"], {k: v for k, v in e.items() if k not in ("path", "hash", "format", "source")}])
        require(e["format"] == ("step" if "a.step" == os.path.basename(e["source"]["original"]) else "stl" if e["source"]["original"].endswith(".stl") else "txt"), "format %r of %s" % (e["format"], e["source"]))
    exp = [[p, pkg.digest(c), x] for p, c, x in want]
    require(got == exp, "%s entries %s, the history says %s" % (what, got, exp))


def verdict_on_disk(root, M):
    """Expected verdict of what is on disk now."""
    d, a, _ = M.disk
    return all(pkg.digest(M.files.get(p, b"")) == pkg.digest(bytes.fromhex(c)) and p in M.files for p, c, _ in d + a)


def base(tag):
    root = os.path.join(pkg.scratch(), tag + ".ycpkg")
    src = os.path.join(pkg.scratch(), tag + "_src")
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(src, ignore_errors=True)
    tpl = os.path.join(pkg.scratch(), "tpl.ycpkg")
    if not os.path.isdir(tpl):
        create(tpl, "solid")
    shutil.copytree(tpl, root)
    os.makedirs(src)
    return root, src


def judge(kind, case):
    if kind == "history":
        return judge_history(case)
    if kind == "crash":
        return judge_crash(*case)
    if kind == "dsl":
        return judge_dsl(*case)
    if kind == "unsaveable":
        return judge_unsaveable(*case)
    raise KeyError(kind)


def judge_history(ops):
    from yapcad.package import PackageManifest, validate_package

    root, src = base("h")
    m = PackageManifest.load(root)
    M = Model()
    states = []
    for i, op in enumerate(ops):
        before = tree(root)
        data0 = json.dumps(m.data, sort_keys=True, default=str)
        want = apply_model(op, M)
        m, refused = apply_real(op, root, src, m)
        at = "after %s: " % ",".join(ops[:i + 1])
        require(refused == want, at + "operation gave %s, expected %s" % (refused, want))
        if refused:
            require(tree(root) == before, at + "a refused operation changed the package's files")
            require(json.dumps(m.data, sort_keys=True, default=str) == data0, at + "a refused operation changed the manifest")
            require(not os.path.exists(os.path.join(os.path.dirname(root), "up.step")), at + "wrote outside the package")
        check_entries(at + "derived", m.data["geometry"].get("derived"), M.derived)
        check_entries(at + "attachments", m.data.get("attachments"), M.attach)
        t = tree(root)
        for p, c in M.files.items():
            require(t.get(p) == c, at + "%s holds %r, the history says %r" % (p, t.get(p), c))
        extra = set(t) - set(M.files) - {"manifest.yaml", "geometry/primary.json"}
        require(not extra, at + "unexpected files %s" % sorted(extra))
        states.append(h((M.state(), sorted(M.files.items()), M.disk)))
    ok, msgs = validate_package(root)
    require(ok == verdict_on_disk(root, M), "validation says %s, the saved manifest is %s: %s" % (ok, "in step" if not ok else "stale", msgs))
    # recompute + save always brings the package back in step
    m.recompute_hashes()
    m.save()
    apply_model("recompute", M)
    M.snap()
    ok, msgs = validate_package(root)
    require(ok, "recomputed and saved, but validation fails: %s" % msgs)
    m2 = PackageManifest.load(root)
    require(json.loads(json.dumps(m2.data)) == json.loads(json.dumps(m.data)), "manifest changes on reload")
    return Out("ok", states, steps=len(ops))


# -- crash injection -----------------------------------------------------------
class Crash(BaseException):
    pass


class Fs:
    """Counts file-system effects of the code under test; dies at effect number k.
    mode: 0 before the effect, 1 with half of a write done, 2 right after it."""

    def __init__(self, root, k=None, mode=0):
        self.root, self.k, self.mode, self.n = os.path.realpath(root), k, mode, 0
        self.saved = {}
        self.dead = False

    def effect(self, half=None):
        """Call before an effect.  Returns True if the process must die right after it."""
        if self.dead:
            raise Crash()
        self.n += 1
        if self.k is not None and self.n - 1 == self.k:
            self.dead = True
            if self.mode == 0:
                raise Crash()
            if self.mode == 1:
                if half:
                    half()
                raise Crash()
            return True
        return False

    def mine(self, p):
        try:
            return os.path.realpath(os.fspath(p)).startswith(self.root)
        except TypeError:
            return False

    def __enter__(self):
        fs = self
        ropen = builtins.open
        self.saved["open"] = ropen

        def xopen(file, mode="r", *a, **kw):
            if isinstance(file, int) or not any(c in mode for c in "wax+") or not fs.mine(file):
                return ropen(file, mode, *a, **kw)
            if "w" in mode or "x" in mode:
                last = fs.effect()
                f = ropen(file, mode, *a, **kw)
                if last:
                    f.close()
                    raise Crash()
            else:
                f = ropen(file, mode, *a, **kw)
            return FileProxy(f, fs)

        builtins.open = xopen
        io.open = xopen

        def wrap(mod, name, which):
            real = getattr(mod, name)
            self.saved[(mod, name)] = real

            def w(*a, **kw):
                if not any(fs.mine(a[i]) for i in which if i < len(a)):
                    return real(*a, **kw)
                last = fs.effect()
                r = real(*a, **kw)
                if last:
                    raise Crash()
                return r

            setattr(mod, name, w)

        for name, which in (("replace", (0, 1)), ("rename", (0, 1)), ("unlink", (0,)), ("remove", (0,)), ("mkdir", (0,)), ("link", (0, 1)), ("truncate", (0,))):
            wrap(os, name, which)
        self.saved["sf"] = shutil._USE_CP_SENDFILE
        shutil._USE_CP_SENDFILE = False
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.saved.pop("open")
        shutil._USE_CP_SENDFILE = self.saved.pop("sf")
        for (mod, name), real in self.saved.items():
            setattr(mod, name, real)


class FileProxy:
    def __init__(self, f, fs):
        self._f, self._fs = f, fs

    def write(self, data):
        def half():
            self._f.write(data[:len(data) // 2])
            self._f.flush()

        last = self._fs.effect(half)
        n = self._f.write(data)
        self._f.flush()
        if last:
            raise Crash()
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)


CRASH_OPS = {
    # prefix run without faults (then saved), then the crashed sequence
    "add+save": (["addA1", "save"], ["addSub", "save"]),
    "replace+save": (["addA1", "save"], ["addA2", "save"]),
    "attach+save": ([], ["attA1", "save"]),
    "recategorise": (["addA1", "save"], ["attSame", "save"]),
    "edit+recompute+save": (["addA1", "save"], ["edit", "recompute", "save"]),
    "recreate": (["addA1", "attA1", "save"], ["create"]),
    "save": (["addA1"], ["save"]),
    "two adds": (["addA1", "save"], ["addA2", "attA1", "addSub", "save"]),
}


def content(root):
    """The content a user of this package would read: recorded files and geometry."""
    from yapcad.package import PackageManifest

    m = PackageManifest.load(root)
    t = tree(root)
    g = m.data["geometry"]
    paths = [g["primary"]["path"]] + [e["path"] for e in (g.get("derived") or []) + (m.data.get("attachments") or [])]
    d = {k: v for k, v in m.data.items() if k not in ("id", "created")}
    return json.dumps([{p: t[p].decode("latin1") for p in paths}, d], sort_keys=True, default=str)


def norm(c):
    """Fresh identifiers differ between two creations: compare shapes, not ids."""
    import re

    c = re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "ID", c)
    return re.sub(r"sha256:[0-9a-f]{64}", "HASH", c)


def judge_crash(name, k, mode):
    from yapcad.package import PackageManifest, validate_package

    pre, seq = CRASH_OPS[name]

    def prepare():
        root, src = base("c")
        m = PackageManifest.load(root)
        for op in pre:
            m, _ = apply_real(op, root, src, m)
        return root, src, m

    root, src, m = prepare()
    old = content(root)
    # the states the caller asked for, without a crash: after each save / create
    news = []
    for op in seq:
        m, _ = apply_real(op, root, src, m)
        if op in ("save", "create"):
            news.append(content(root))
    # now the same run, dying at effect k
    root, src, m = prepare()
    man0 = tree(root)["manifest.yaml"]
    fs = Fs(root, k, mode)
    crashed = False
    try:
        with fs:
            for op in seq:
                m, _ = apply_real(op, root, src, m)
    except Crash:
        crashed = True
    if not crashed:
        require(k >= fs.n, "crash %d of %d was swallowed" % (k, fs.n))
        return Out("beyond")
    ok, msgs = validate_package(root)
    what = "death at effect %d (%s) of %s: " % (k, ("before", "torn", "after")[mode], name)
    man = tree(root)["manifest.yaml"]
    try:
        data = yaml.safe_load(man.decode())
    except (yaml.YAMLError, UnicodeDecodeError):
        data = None
    require(isinstance(data, dict) and data.get("geometry"), what + "the manifest is unreadable")
    if ok:
        c = norm(content(root))
        require(c in [norm(x) for x in [old] + news], what + "the package validates but holds neither the old nor the new content")
        return Out("valid")
    require(any(x.startswith("ERROR") for x in msgs), what + "invalid without an error message")
    # repairable: the files are there, recomputing hashes makes it whole again
    m2 = PackageManifest.load(root)
    m2.recompute_hashes()
    m2.save()
    return Out("detected")


def judge_unsaveable(where, what):
    """A manifest that cannot be written must not destroy the one on disk."""
    from yapcad.package import PackageManifest, validate_package

    root, src = base("u")
    before = tree(root)
    m = PackageManifest.load(root)
    bad = {"object": object(), "set_of_obj": [object()], "lambda": (lambda: 0), "numpy": __import__("numpy").float64(1.5)}[what]
    if where == "top":
        m.data["extensions"] = bad
    elif where == "last":
        m.data["zzz"] = {"deep": [1, {"x": bad}]}
    elif where == "first":
        m.data = {"aaa": bad, **m.data}
    try:
        m.save()
        saved = True
    except Exception:
        saved = False
    if not saved:
        require(tree(root)["manifest.yaml"] == before["manifest.yaml"], "a failed save destroyed the manifest")
    ok, msgs = validate_package(root)
    require(ok, "package no longer validates after a %s save: %s" % ("successful" if saved else "failed", msgs))
    return Out("saved" if saved else "refused")


DSL = {
    "box": ("module m\ncommand BOX(w: float = 2.0) -> solid:\n    emit box(w, 1.0, 3.0)\n", "BOX"),
    "utf8": ("module m\n# été ☃\ncommand BOX(w: float = 2.0) -> solid:\n    emit box(w, 1.0, 3.0)\n", "BOX"),
    "list": ("module m\ncommand BOX(w: float = 2.0) -> list<solid>:\n    emit [box(w, 1.0, 3.0), box(1.0, w, 1.0)]\n", "BOX"),
    "nothing": ("module m\ncommand BOX(w: float = 2.0) -> float:\n    emit w\n", "BOX"),
    "fails": ("module m\ncommand BOX(w: float = 2.0) -> solid:\n    require w < 0.0, \"no\"\n    emit box(w, 1.0, 3.0)\n", "BOX"),
    "syntax": ("module m\ncommand BOX(\n", "BOX"),
    "missing": ("module m\ncommand BOX(w: float = 2.0) -> solid:\n    emit box(w, 1.0, 3.0)\n", "NOPE"),
}


def judge_dsl(name, params, exists):
    from yapcad.dsl.packaging import package_from_dsl
    from yapcad.package import load_geometry, validate_package

    src, cmd = DSL[name]
    root = os.path.join(pkg.scratch(), "d.ycpkg")
    shutil.rmtree(root, ignore_errors=True)
    before = None
    if exists != "no":
        create(root, "solid")
        before = tree(root)
    r = package_from_dsl(src, cmd, params, root, name="n", version="1", overwrite=(exists == "overwrite"))
    good = name in ("box", "utf8", "list") and exists != "yes"
    require(r.success == good, "package_from_dsl success=%s (%s)" % (r.success, r.error_message))
    if not good:
        require(r.manifest is None and r.error_message, "failure without a message")
        if before is None:
            require(not os.path.exists(root), "a failed command left a package behind")
        else:
            require(tree(root) == before, "a failed command changed the existing package")
        return Out("refused")
    ok, msgs = validate_package(root, strict=True)
    require(ok, "package made from DSL does not validate: %s" % msgs)
    att = [e for e in r.manifest.data["attachments"] if e["path"] == "attachments/source.dsl"]
    require(len(att) == 1, "source attachment recorded %d times" % len(att))
    with open(os.path.join(root, "attachments/source.dsl"), "rb") as f:
        require(f.read() == src.encode("utf-8"), "packaged source differs from the source that was run")
    gen = r.manifest.data["generator"]
    require(gen["dsl"]["command"] == cmd and gen["dsl"]["module"] == "m", "provenance %s" % gen)
    for k, v in params.items():
        require(gen["dsl"]["parameters"].get(k) == v, "provenance parameters %s, ran with %s" % (gen["dsl"]["parameters"], params))
    g = load_geometry(r.manifest)
    require(len(g) == (2 if name == "list" else 1), "%d entities packaged" % len(g))
    w = params.get("w", 2.0)
    xs = [v[0] for s in g[0][1] for v in s[1]]
    require(abs((max(xs) - min(xs)) - w) < 1e-9, "packaged box is %g wide, asked for %g" % (max(xs) - min(xs), w))
    return Out("packaged")


def run(ctx):
    with pkg.Scratch():
        depth = ctx.pick(3, 4)

        def hist():
            for d in range(1, depth + 1):
                for seq in itertools.product(OPS, repeat=d):
                    # refusals and repeated saves change nothing: keep at most two per history at full depth
                    if d == depth and sum(o.startswith("bad") or o == "createno" for o in seq) > 1:
                        continue
                    yield list(seq)

        def crashes():
            for name in CRASH_OPS:
                for k in range(ctx.pick(400, 3000)):
                    for mode in (0, 1, 2):
                        yield (name, k, mode)

        # number of effects per sequence, so that every one of them is crashed
        from yapcad.package import PackageManifest

        counts = {}
        for name, (pre, seq) in CRASH_OPS.items():
            root, src = base("n")
            m = PackageManifest.load(root)
            for op in pre:
                m, _ = apply_real(op, root, src, m)
            with Fs(root) as fs:
                for op in seq:
                    m, _ = apply_real(op, root, src, m)
            counts[name] = fs.n
        ctx.notes["file_system_effects"] = counts

        def crashes():
            for name, n in counts.items():
                for k in range(n + 1):
                    if n > 600 and not ctx.thorough and 40 < k < n - 250 and k % 25:
                        continue  # the long run of identical geometry-document writes
                    for mode in (0, 1, 2):
                        yield (name, k, mode)

        drivers = [
            ("unsaveable", [(w, x) for w in ("top", "last", "first") for x in ("object", "set_of_obj", "lambda", "numpy")], 3),
            ("dsl", [(n, p, e) for n in DSL for p in ({}, {"w": 3.5}) for e in ("no", "yes", "overwrite")], 3),
            ("crash", crashes(), 24),
            ("history", hist(), 32),
        ]
        ctx.explore(judge, drivers)
