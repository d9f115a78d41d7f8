#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from the META blocks of the
property modules (mc/props/p*.py) and of na.py (properties not claimed)."""
import ast
import json
import os

# planted bugs that the checks missed when they were first run
MISSED = {'p37-suffix-replace', 'p30-fine-weld', 'p30-solid-header', 'p34-poly-both', 'p23-touch', 'p25-worst-last', 'p25-plan-known', "p06-hash-head", "p08-hash-top-keys", "p09-surface-id-shared", "p11-inner-circle", "p12-inexact-closure", "p32-surface-len", "p18-split-plane", "p15-near-tolerance", "p15-hole-strip", "p29-last-path"}
V = os.path.dirname(os.path.abspath(__file__))


def meta(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return ast.literal_eval(node.value)
    raise SystemExit("no META in " + path)


def seeds():
    d = os.path.join(V, "seeded")
    out = {}
    for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = os.path.join(d, i, "meta.json")
        if os.path.exists(p):
            x = json.load(open(p))
            out.setdefault(x["property"], []).append((i, x["what_it_breaks"]))
    return out


props, checks, metas = [], [], []
d = os.path.join(V, "mc", "props")
for f in sorted(os.listdir(d)):
    if not (f.startswith("p") and f.endswith(".py")):
        continue
    m = meta(os.path.join(d, f))
    pid = m["id"]
    metas.append(m)
    assert f.lower().startswith(pid.lower() + "_"), f
    assert len(m["title"]) <= 80, (pid, len(m["title"]))
    assert m["statement"].count(". ") <= 2, pid
    props.append({
        "id": pid, "title": m["title"], "statement": m["statement"],
        "quantifier": {"over": m["over"], "text": m["forall"]},
        "why_tests_cant": m["why"],
        "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]},
    })
    if m.get("unclaimed"):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": m["technique"], "level": "model_checking", "level_note": m["note"],
    })
na = json.load(open(os.path.join(V, "not_applicable.json")))
for n in na:
    p = n.pop("prop")
    props.append({**p, "id": n["property"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -m compileall -q mc check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Pure bounded exhaustive exploration of the real Python code in /repo/src (no build needed); see DESIGN.md. /repo carries fix: commits only, no hooks.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
fixed = open(os.path.join(V, "known_findings.jsonl")).read().splitlines()
planted = seeds()
text = []
for m in metas:
    n = sum(x.startswith("fixed: property=%s " % m["id"]) for x in fixed)
    text += ["### %s %s" % (m["id"], m["title"]), "", m["statement"], ""]
    text += ["* **Decided by** %s." % m["technique"], "* **Enumerated:** %s." % m["forall"], "* **Bounds, judgement:** %s." % m["note"]]
    if m.get("oracle"):
        text += ["* **Oracle:** %s." % m["oracle"]]
    text += ["* **Why tests cannot:** " + m["why"], "* **Code:** " + ", ".join("`%s`" % w for w in m["files"])]
    text += ["* **Defects repaired on the way:** %d." % n] if n else []
    for i, b in planted.get(m["id"], []):
        missed = " (missed at first; the check was strengthened)" if i in MISSED else ""
        text += ["* **Catches** `%s`: %s%s." % (i, b, missed)]
    text += [""]
p = os.path.join(V, "DESIGN.md")
head, rest = open(p).read().split("<!-- begin properties -->")
tail = rest.split("<!-- end properties -->")[1]
with open(p, "w") as f:
    f.write(head + "<!-- begin properties -->\n\n" + "\n".join(text) + "\n<!-- end properties -->" + tail)
print(len(props), "properties", len(checks), "checks")
