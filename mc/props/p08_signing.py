"""P08: signature verification answers exactly what was signed, by whom, and whether trusted."""
import copy
import itertools
import json
import os
import shutil
import subprocess
import tempfile

import yaml

from mc import pkg
from mc.core import Out, Violation, h, require

META = {
    "id": "P08",
    "title": "Signature verification is exact: who signed, whether trusted, whether tampered",
    "statement": "A package signed with any GPG or SSH key verifies VALID when the key is trusted, VALID_UNTRUSTED when the signature is right but the key is not trusted, INVALID when the manifest changed since, and ERROR when the key or signature file is missing or damaged, independently for each of several signatures. Adding a signature never invalidates or overwrites earlier ones, whatever the order. The signed hash depends on the manifest's content alone: reordering keys, reformatting and editing the signatures section leave it, any other change alters it; malformed packages give an error result, not an exception.",
    "over": ["histories", "inputs"],
    "forall": "every sign/add/edit/restore/damage history to depth 3 (quick) / 4 (thorough) over 4 keys x 7 trust configurations, every manifest node edited, every byte of a signature damaged",
    "why": "The suite has no signing test at all; acceptance of a forged or untrusted signature is exactly what a sampled happy path does not show.",
    "files": ["src/yapcad/package/signing.py"],
    "mech": [["status decision per signature", "package/signing.py:_verify_ssh_signature"], ["GPG trust decision", "package/signing.py:_verify_gpg_signature"], ["canonical manifest hash", "package/signing.py:_compute_canonical_manifest_hash"], ["signature bookkeeping", "package/signing.py:sign_package"]],
    "technique": "exhaustive enumeration of signing/tampering histories on real keys (gpg, ssh-keygen), each verification compared with a reference table of who signed what under which trust",
    "note": "2 GPG + 2 SSH keys (two sharing a comment), 7 trust configurations, histories to depth 3/4; every manifest node x 5 edits; single-byte damage of every signature",
}

# -- keys (made once per run, in a scratch directory) ----------------------------
def sh(*a, **kw):
    r = subprocess.run(a, capture_output=True, **kw)
    if r.returncode:
        raise RuntimeError("%s: %s" % (a, r.stderr.decode("utf-8", "replace")))
    return r.stdout


def gpg(home, *a, **kw):
    return sh("gpg", "--homedir", home, "--batch", "--quiet", "--pinentry-mode", "loopback", "--passphrase", "", *a, **kw)


def make_keys(d):
    """ssh: k1, k2 (same comment), k3.  gpg homes: sign (all secret keys), full, untrusted, never, none."""
    env = {}
    for n, comment in (("k1", "dev@example.com"), ("k2", "dev@example.com"), ("k3", "a very long comment with spaces")):
        sh("ssh-keygen", "-q", "-t", "ed25519", "-N", "", "-C", comment, "-f", os.path.join(d, n))
    sgn = os.path.join(d, "gs")
    os.mkdir(sgn, 0o700)
    fpr = {}
    for n, uid in (("g1", "Ann <ann@example.com>"), ("g2", "Bob <bob@example.com>")):
        gpg(sgn, "--quick-gen-key", uid, "ed25519", "sign", "never")
    for line in gpg(sgn, "--list-keys", "--with-colons").decode().split("\n"):
        p = line.split(":")
        if p[0] == "fpr":
            fpr["g%d" % (len(fpr) + 1)] = p[9]
    pub = {n: gpg(sgn, "--export", f) for n, f in fpr.items()}
    with open(os.path.join(d, "fpr.json"), "w") as f:
        json.dump(fpr, f)
    # verification homes: ownertrust level per key (6 ultimate, 4 marginal..., 2 undefined, 3 never)
    for name, trust in (("ga", {"g1": 6, "g2": 2}), ("gb", {"g1": 2, "g2": 6}), ("gm", {"g1": 4, "g2": 3}), ("gn", {}), ("gk", {})):
        hm = os.path.join(d, name)
        os.mkdir(hm, 0o700)
        with open(os.path.join(hm, "gpg.conf"), "w") as f:
            f.write("no-auto-check-trustdb\n" + ("trust-model direct\n" if name == "gm" else ""))
        for n, lv in trust.items():
            gpg(hm, "--import", input=pub[n])
            gpg(hm, "--import-ownertrust", input=("%s:%d:\n" % (fpr[n], lv)).encode())
        if trust:
            gpg(hm, "--check-trustdb")
        else:
            subprocess.run(["gpg", "--homedir", hm, "--batch", "--list-keys"], capture_output=True)
    # a keyring file holding g2 only, for --keyring use
    with open(os.path.join(d, "ring.gpg"), "wb") as f:
        f.write(pub["g2"])

    def pk(n):
        return " ".join(open(os.path.join(d, n + ".pub")).read().split()[:2])

    al = {
        "al_none": "",
        "al_k1": "dev@example.com %s\n" % pk("k1"),
        "al_k2k3": "# comment\n\nother@x,dev@example.com %s\n*@corp namespaces=\"ycpkg\" %s\n" % (pk("k2"), pk("k3")),
        "al_wrongns": "dev@example.com namespaces=\"git\" %s\n" % pk("k1"),
        "al_all": "".join("u%s@x %s\n" % (n, pk(n)) for n in ("k1", "k2", "k3")),
    }
    for n, t in al.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)


KEYS = ["g1", "g2", "k1", "k2"]
# trust configuration: (GNUPGHOME, keyring, allowed signers) -> reference status of a correct signature
VALID, UNT, INV, ERR = "VALID", "VALID_UNTRUSTED", "INVALID", "ERROR"
TRUST = {
    "none": ("gn", None, None, {"g1": ERR, "g2": ERR, "k1": UNT, "k2": UNT, "k3": UNT}),
    "annk1": ("ga", None, "al_k1", {"g1": VALID, "g2": UNT, "k1": VALID, "k2": UNT, "k3": UNT}),
    "bobk2": ("gb", None, "al_k2k3", {"g1": UNT, "g2": VALID, "k1": UNT, "k2": VALID, "k3": VALID}),
    "marginal": ("gm", None, "al_wrongns", {"g1": VALID, "g2": UNT, "k1": UNT, "k2": UNT, "k3": UNT}),
    "ring": ("gk", "ring.gpg", "al_none", {"g1": ERR, "g2": UNT, "k1": UNT, "k2": UNT, "k3": UNT}),
    "all": ("ga", None, "al_all", {"g1": VALID, "g2": UNT, "k1": VALID, "k2": VALID, "k3": VALID}),
    "absent": ("gb", None, "no-such-file", {"g1": UNT, "g2": VALID, "k1": UNT, "k2": UNT, "k3": UNT}),
}


def kd():
    return os.environ["VERIF_KEYS"]


def fprs():
    if "f" not in _C:
        _C["f"] = json.load(open(os.path.join(kd(), "fpr.json")))
    return _C["f"]


_C = {}


class Home:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("GNUPGHOME")
        os.environ["GNUPGHOME"] = os.path.join(kd(), self.name)

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("GNUPGHOME", None)
        else:
            os.environ["GNUPGHOME"] = self.old


DOC = {
    "schema": "ycpkg-spec-v0.1", "name": "n", "version": "1",
    "created": {"timestamp": "2024-10-12T18:04:00Z"},
    "geometry": {"primary": {"path": "geometry/primary.json", "hash": "sha256:00", "entities": ["a", "b"]}},
    "tags": [], "attachments": [{"path": "x", "hash": "sha256:11"}],
}


def newpkg(name="p", text=None):
    root = os.path.join(pkg.scratch(), name)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    with open(os.path.join(root, "manifest.yaml"), "w") as f:
        f.write(text if text is not None else yaml.safe_dump(DOC, sort_keys=False))
    return root


def sign(root, key, add):
    """Sign with a key; the signature of identical content by the same key is cached per worker
    except in fresh histories (sign_package itself always runs)."""
    from yapcad.package import sign_package

    with Home("gs"):
        if key[0] == "g":
            return sign_package(root, method="gpg", key_id=fprs()[key], add=add)
        return sign_package(root, method="ssh", key_path=os.path.join(kd(), key), add=add)


def verify(root, trust):
    from yapcad.package import verify_package

    home, ring, al, table = TRUST[trust]
    with Home(home):
        cwd = os.getcwd()
        try:
            if ring:  # a relative keyring name means the file in the working directory
                os.chdir(kd())
            return verify_package(root, allowed_signers=os.path.join(kd(), al) if al else None, gpg_keyring=ring)
        finally:
            os.chdir(cwd)


def load(root):
    with open(os.path.join(root, "manifest.yaml")) as f:
        return yaml.safe_load(f)


def store(root, d, **kw):
    with open(os.path.join(root, "manifest.yaml"), "w") as f:
        yaml.safe_dump(d, f, **kw)


def overall(sts):
    for s in (VALID, UNT, INV):
        if s in sts:
            return s
    return ERR


OPS = ["s:" + k for k in KEYS] + ["a:" + k for k in KEYS] + ["edit", "restore", "reformat", "rmsig", "damage", "swap"]


def judge(kind, case):
    if kind == "history":
        return judge_history(case)
    if kind == "canon":
        return judge_canon(*case)
    if kind == "damage":
        return judge_damage(*case)
    if kind == "malformed":
        return judge_malformed(*case)
    if kind == "many":
        return judge_many(case)
    if kind == "files":
        return judge_files(*case)
    raise KeyError(kind)


def judge_history(ops):
    root = newpkg()
    # model: signatures as [key, content version signed, state of its file], current content version
    sigs, cur = [], 0
    states = []
    for op in ops:
        if op[:2] in ("s:", "a:"):
            info = sign(root, op[2:], op[0] == "a")
            require(info.method.value == ("gpg" if op[2] == "g" else "ssh"), "method %s" % info.method)
            if op[0] == "s":
                sigs = []
            sigs.append([op[2:], cur, "ok"])
            if op[2] == "g":
                require(fprs()[op[2:]].endswith(info.key_id), "signed with %s, recorded key %s" % (fprs()[op[2:]], info.key_id))
                require(info.signer.startswith({"g1": "Ann", "g2": "Bob"}[op[2:]]), "signer %s for key %s" % (info.signer, op[2:]))
        elif op == "edit":
            d = load(root)
            d["name"] = "forged"
            store(root, d, sort_keys=False)
            cur = 1
        elif op == "restore":
            d = load(root)
            d["name"] = "n"
            store(root, d, sort_keys=False)
            cur = 0
        elif op == "reformat":
            store(root, load(root), sort_keys=True, default_flow_style=True, width=40)
        elif op in ("rmsig", "damage", "swap"):
            d = load(root)
            ent = d.get("signatures") or []
            if not ent:
                continue
            f = os.path.join(root, ent[0]["signature_file"])
            if op == "rmsig":
                if os.path.exists(f):
                    os.unlink(f)
                sigs[0][2] = "gone"
            elif op == "damage":
                if not os.path.exists(f):
                    continue
                with open(f, "w") as fh:
                    fh.write("garbage\n")
                sigs[0][2] = "bad"
            else:  # exchange the first and last signature file (entries keep their names)
                g = os.path.join(root, ent[-1]["signature_file"])
                if len(ent) < 2 or not (os.path.exists(f) and os.path.exists(g)):
                    continue
                if ent[0]["method"] != ent[-1]["method"]:
                    sigs[0][2] = sigs[-1][2] = "bad"
                a, b = open(f).read(), open(g).read()
                open(f, "w").write(b)
                open(g, "w").write(a)
                if ent[0]["method"] == ent[-1]["method"]:
                    # each entry now carries the other's signature
                    sigs[0][:], sigs[-1][:] = list(sigs[-1]), list(sigs[0])
        ent = load(root).get("signatures") or []
        require(len(ent) == len(sigs), "%d signature entries after %s" % (len(ent), ops))
        files = [e["signature_file"] for e in ent]
        require(len(set(files)) == len(files), "two signatures share the file %s" % files)
        states.append(h((tuple(map(tuple, sigs)), cur)))
    from yapcad.package import list_signatures

    ls = list_signatures(root)
    require([s.signature_file for s in ls] == [e["signature_file"] for e in ent], "list_signatures disagrees with the manifest")
    seen = []
    for trust in TRUST:
        table = TRUST[trust][3]
        want = []
        for key, ver, st in sigs:
            if st != "ok":
                want.append(ERR)
            elif ver == cur:
                want.append(table[key])
            else:  # correct signature of other content: INVALID, or ERROR where the key is unknown
                want.append(ERR if table[key] == ERR else INV)
        r = verify(root, trust)
        got = [s.status.value for s in r.signatures]
        require(got == want, "trust %s, signatures %s, content version %d: verified as %s, expected %s (%s)" % (
            trust, sigs, cur, got, want, [s.error_message for s in r.signatures]))
        require(not r.errors, "errors %s" % r.errors)
        require(r.is_valid == (VALID in want) and r.trusted_signers == want.count(VALID) and r.untrusted_signers == want.count(UNT), "summary counts")
        require(r.overall_status.value == overall(want), "overall %s for %s" % (r.overall_status, want))
        seen.append(overall(want))
    return Out(",".join(seen), states, steps=len(ops) + len(TRUST))


def judge_many(keys):
    """Many added signatures, the same key several times."""
    root = newpkg("m")
    for k in keys:
        sign(root, k, True)
    ent = load(root)["signatures"]
    require(len(ent) == len(keys) and len({e["signature_file"] for e in ent}) == len(keys), "%d signatures, files %s" % (len(keys), [e["signature_file"] for e in ent]))
    for t in ("annk1", "bobk2"):
        want = [TRUST[t][3][k] for k in keys]
        got = [s.status.value for s in verify(root, t).signatures]
        require(got == want, "%s verified as %s, expected %s" % (keys, got, want))
    return Out("many%d" % len(keys))


# -- canonical hash ------------------------------------------------------------
FORMATS = {
    "flow": lambda d: yaml.safe_dump(d, default_flow_style=True),
    "wide": lambda d: yaml.safe_dump(d, width=20, indent=6, sort_keys=True),
    "json": lambda d: json.dumps(d),
    "quoted": lambda d: yaml.safe_dump(d, default_style='"') if False else yaml.safe_dump(d, explicit_start=True, explicit_end=True, allow_unicode=True),
    "reversed": lambda d: yaml.safe_dump(rev(d), sort_keys=False),
    "signatures": lambda d: yaml.safe_dump({"signatures": [{"method": "gpg", "signature_file": "nope"}], **d}, sort_keys=False),
    "signatures2": lambda d: yaml.safe_dump({**d, "signatures": []}, sort_keys=False),
}


def rev(d):
    if isinstance(d, dict):
        return {k: rev(d[k]) for k in reversed(list(d))}
    return [rev(x) for x in d] if isinstance(d, list) else d


def node_paths(d, pre=()):
    if pre:
        yield pre
    if isinstance(d, dict):
        for k in d:
            yield from node_paths(d[k], pre + (k,))
    elif isinstance(d, list):
        for i in range(len(d)):
            yield from node_paths(d[i], pre + (i,))


def edit(d, path, how):
    d = copy.deepcopy(d)
    cur = d
    for p in path[:-1]:
        cur = cur[p]
    k = path[-1]
    if how == "del":
        del cur[k]
    elif how == "null":
        cur[k] = None
    elif how == "other":
        cur[k] = (cur[k] + "x") if isinstance(cur[k], str) else "changed"
    elif how == "wrap":
        cur[k] = [cur[k]]
    elif how == "rename":
        if isinstance(cur, dict):
            cur[k + "_"] = cur.pop(k)
        else:
            cur.insert(0, cur.pop(k))
    elif how == "add":
        if isinstance(cur, dict):
            cur["zz"] = 0
        else:
            cur.append(0)
    return d


def hash_of(text):
    from yapcad.package import verify_package

    root = newpkg("c", text)
    r = verify_package(root)
    require(not r.errors and r.manifest_hash.startswith("sha256:") and len(r.manifest_hash) == 71, "hash %r, errors %s" % (r.manifest_hash, r.errors))
    return r.manifest_hash


def ref_hash(d):
    import hashlib

    d = {k: v for k, v in d.items() if k != "signatures"}
    return "sha256:" + hashlib.sha256(json.dumps(d, sort_keys=True, separators=(",", ":")).encode()).hexdigest()


CANON_DOCS = {
    "doc": DOC,
    "uni": {"schema": "s", "é": "ü ☃", "n": [1, 2.5, True, None, "1", "true", ""], "deep": {"a": {"signatures": [1], "b": []}}},
    "tiny": {"a": 0},
    # keys that resemble the one key left out of the hash
    "near": {k: v for v, k in enumerate(["signature", "signatures_", "signatures2", "signature_policy", "Signatures", " signatures", "_signatures",
                                         "sig", "signed", "hash", "timestamp", "created", "id", "generator", "_x", "", "x.y", "-"])},
    "near2": {"metadata": {"signatures": 1, "signature": 2, "_p": {"signatures": [3]}}, "list": [{"signatures": 4}, {"signature": 5}]},
}


def judge_canon(name, fmt, path, how):
    d = CANON_DOCS[name]
    base = hash_of(yaml.safe_dump(d, sort_keys=False))
    require(base == ref_hash(d), "signed hash %s, the specification's canonical form gives %s" % (base, ref_hash(d)))
    if fmt:
        require(hash_of(FORMATS[fmt](d)) == base, "%s formatting changed the signed hash" % fmt)
    if path is not None:
        e = edit(d, path, how)
        hh = hash_of(yaml.safe_dump(e, sort_keys=False))
        require((hh == base) == (e == d), "edit %s of %s: hash %s" % (how, path, "unchanged" if hh == base else "changed"))
        require(hh == ref_hash(e), "edited document hashes to %s, specification %s" % (hh, ref_hash(e)))
    return Out(how or fmt)


def judge_damage(key, part, n):
    """Flip one byte of the armoured signature body: never VALID unless the bytes decode the same."""
    ck = (key, os.getpid())
    root = os.path.join(pkg.scratch(), "dmg_" + key)
    if ck not in _C:
        newpkg("dmg_" + key)
        info = sign(root, key, False)
        _C[ck] = (info.signature_file, open(os.path.join(root, info.signature_file), "rb").read())
    rel, orig = _C[ck]
    pos = int(len(orig) * part // n)
    b = bytes([orig[pos] ^ 1]) if orig[pos] not in b"\n" else b"A"
    f = os.path.join(root, rel)
    try:
        with open(f, "wb") as fh:
            fh.write(orig[:pos] + b + orig[pos + 1:])
        r = verify(root, "all" if key[0] == "k" else ("annk1" if key == "g1" else "bobk2"))
        st = r.signatures[0].status.value
        if st in (VALID, UNT):
            require(decoded(orig) == decoded(orig[:pos] + b + orig[pos + 1:]), "signature with byte %d of %d changed (%r) still verifies as %s" % (pos, len(orig), b, st))
            return Out("neutral")
        return Out(st)
    finally:
        with open(f, "wb") as fh:
            fh.write(orig)


def decoded(armour):
    """Base64 payload of an armoured signature (checksum and header lines aside)."""
    import base64
    import re

    t = armour.decode("latin1")
    body = []
    for line in t.split("\n"):
        line = line.strip()
        if not line or line.startswith("-----") or ":" in line or (line.startswith("=") and len(line) == 5):
            continue
        body.append(line)
    s = re.sub(r"[^A-Za-z0-9+/=]", "", "".join(body))
    try:
        return base64.b64decode(s + "=" * (-len(s) % 4))
    except Exception:
        return s


MAL = {
    "missing": None,
    "empty": "", "scalar": "hello", "list": "- 1\n- 2\n", "badyaml": "a: [1,\n", "tab": "a:\n\t- b", "null": "null\n",
    "sigstr": "name: n\nsignatures: oops\n", "sigdict": "name: n\nsignatures: {a: 1}\n", "signull": "name: n\nsignatures: null\n",
    "signum": "name: n\nsignatures: 3\n",
    "sigitems": "name: n\nsignatures: [1, null, x, []]\n", "sigempty": "name: n\nsignatures: [{}]\n",
    "method": "name: n\nsignatures: [{method: pgp, signature_file: s}]\n",
    "methodlist": "name: n\nsignatures: [{method: [gpg], signature_file: s}]\n",
    "dir": "name: n\nsignatures: [{method: ssh, signature_file: signatures}]\n",
    "up": "name: n\nsignatures: [{method: ssh, signature_file: ../outside.sig}]\n",
    "abs": "name: n\nsignatures: [{method: gpg, signature_file: /etc/hostname}]\n",
    "num": "name: n\nsignatures: [{method: gpg, signature_file: 7}]\n",
    "nofile": "name: n\nsignatures: [{method: gpg}]\n",
    "binary": "name: n\nsignatures: [{method: ssh, signature_file: bin}]\n",
    "binaryg": "name: n\nsignatures: [{method: gpg, signature_file: bin}]\n",
    "date": "name: n\ncreated: {timestamp: 2024-10-12T18:04:00Z, day: 2024-10-12}\n",
    "keys": "1: a\n2: b\n",
    "mixkeys": "1: a\nb: c\n",
}


def judge_malformed(name, op):
    from yapcad.package import SigningError, list_signatures

    text = MAL[name]
    root = newpkg("bad", text if text is not None else "")
    if text is None:
        os.unlink(os.path.join(root, "manifest.yaml"))
    os.makedirs(os.path.join(root, "signatures"), exist_ok=True)
    with open(os.path.join(root, "bin"), "wb") as f:
        f.write(bytes(range(256)) * 4)
    if op == "verify":
        r = verify(root, "all")
        require(not r.is_valid and r.trusted_signers == 0, "a malformed package verified as trusted")
        require(r.overall_status.value == ERR, "overall %s" % r.overall_status)
        for s in r.signatures:
            require(s.status.value == ERR, "signature status %s" % s.status)
        if name not in ("date", "keys", "mixkeys", "signull"):
            require(r.errors or r.signatures, "no error reported")
        if name in ("date", "keys"):
            require(not r.errors and r.warnings, "%s refused: %s" % (name, r.errors))
    elif op == "list":
        require(isinstance(list_signatures(root), list), "list_signatures")
    else:
        before = open(os.path.join(root, "manifest.yaml"), "rb").read() if text is not None else None
        try:
            sign(root, "k1", op == "add")
        except SigningError:
            if before is not None:
                require(open(os.path.join(root, "manifest.yaml"), "rb").read() == before, "a refused signing changed the manifest")
            require(name not in ("date", "sigempty"), "%s could not be signed" % name)
            return Out("refused")
        r = verify(root, "all")
        require([s for s in r.signatures if s.status.value == VALID], "freshly signed package does not verify: %s" % r)
        return Out("signed")
    return Out(op)


def judge_files(how, key):
    """Signing and validation together: a changed file is caught although only the manifest is signed."""
    from yapcad.package import validate_package

    root = os.path.join(pkg.scratch(), "full.ycpkg")
    shutil.rmtree(root, ignore_errors=True)
    pkg.build(root, "two", derived=(b"STEP A",), attach=(b"x",))
    sign(root, key, False)
    trust = {"g1": "annk1", "g2": "bobk2", "k1": "annk1", "k2": "bobk2"}[key]
    ok, msgs = validate_package(root)
    require(ok and verify(root, trust).is_valid, "a fresh signed package: %s" % msgs)
    f = {"primary": "geometry/primary.json", "derived": "geometry/derived/d0.step", "attach": "attachments/a0.txt"}[how[0]]
    with open(os.path.join(root, f), "ab") as fh:
        fh.write(b" ")
    ok, _ = validate_package(root)
    require(not ok, "changed file passes validation")
    if how[1]:  # cover it up in the manifest
        from yapcad.package import PackageManifest

        m = PackageManifest.load(root)
        m.recompute_hashes()
        m.save()
        ok, _ = validate_package(root)
        require(ok, "recomputed hashes do not validate")
        r = verify(root, trust)
        require(r.overall_status.value == INV, "a forged hash verifies as %s" % r.overall_status)
    else:
        require(verify(root, trust).is_valid, "the manifest is untouched, signature must stand")
    return Out("caught")


def run(ctx):
    with pkg.Scratch() as d:
        keys = tempfile.mkdtemp(prefix="vk", dir="/tmp")
        os.environ["VERIF_KEYS"] = keys
        for k in ("GNUPGHOME", "SSH_AUTH_SOCK", "SSH_ASKPASS", "GPG_AGENT_INFO"):
            os.environ.pop(k, None)
        try:
            make_keys(keys)

            def hist():
                mut = ["edit", "restore", "reformat", "rmsig", "damage", "swap"]
                for n in range(1, ctx.pick(3, 4) + 1):
                    for seq in itertools.product(OPS, repeat=n):
                        # a history that ends before any signature has nothing to verify
                        if not any(o[:2] in ("s:", "a:") for o in seq):
                            continue
                        # nothing to damage or restore yet
                        if seq[0] in ("restore", "rmsig", "damage", "swap", "reformat"):
                            continue
                        if n == ctx.pick(3, 4) and sum(o[0] == "s" and o[1] == ":" for o in seq) > 1:
                            continue  # a second plain signing forgets the first
                        yield list(seq)

            def canon():
                for n, doc in CANON_DOCS.items():
                    for f in FORMATS:
                        yield (n, f, None, None)
                    for p in node_paths(doc):
                        for how in ("del", "null", "other", "wrap", "rename", "add"):
                            yield (n, None, list(p), how)

            m = ctx.pick(60, 400)
            drivers = [
                ("malformed", [(n, o) for n in MAL for o in ("verify", "list", "sign", "add")], 2),
                ("files", [((w, c), k) for w in ("primary", "derived", "attach") for c in (0, 1) for k in KEYS], 2),
                ("many", [list(ks) for ks in itertools.product(["g1", "k1", "k2", "k3"], repeat=ctx.pick(3, 4))], 4),
                ("damage", [(k, i, m) for k in KEYS for i in range(m)], 20),
                ("canon", canon(), 16),
                ("history", hist(), 8),
            ]
            ctx.assumptions.append("gpg and ssh-keygen themselves decide cryptographic validity correctly")
            ctx.explore(judge, drivers)
        finally:
            for hm in ("gs", "ga", "gb", "gm", "gn", "gk"):
                subprocess.run(["gpgconf", "--homedir", os.path.join(keys, hm), "--kill", "all"], capture_output=True)
            shutil.rmtree(keys, ignore_errors=True)
            os.environ.pop("VERIF_KEYS", None)
