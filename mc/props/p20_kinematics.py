"""P20: world poses of an articulated chain are a function of the tree and the
current joint values only, whatever the history of edits and queries."""
import itertools
import json
import os
import tempfile

from mc import mat
from mc.core import Out, h, require

META = {
    "id": "P20",
    "title": "Articulated-chain poses depend only on the tree and the current joint values",
    "statement": "The world pose of a part (or of a frame on it) in a kinematic chain is always the product of its ancestors' frames and joint motions at their current joint values, whatever sequence of additions, joint changes (clamped to limits on request) and queries came before. Relative poses, children, ancestors and descendants agree with the same tree, rejected operations change nothing, and a chain rebuilt from its export is the same chain with the same poses. Rigid transforms obey the group laws: composition, inverse, and the conversions from and to angles and dictionaries describe one and the same motion.",
    "over": ["histories", "inputs"],
    "forall": "every history of adds, joint changes and queries over trees of up to 4 parts, every joint kind, every angle triple on the grid",
    "why": "No test of the suite covers the kinematics package; a stale cached pose appears only for particular orders of query and update in particular tree shapes.",
    "files": ["src/yapcad/kinematics/chain.py", "src/yapcad/kinematics/joint.py", "src/yapcad/kinematics/part.py", "src/yapcad/kinematics/transform.py"],
    "mech": [["pose cache invalidation down the subtree", "kinematics/chain.py:set_joint_value"], ["joint motion", "kinematics/joint.py:get_transform"], ["angle extraction", "kinematics/transform.py:to_euler_xyz"]],
    "technique": "explicit enumeration of operation histories on the real chain, each step compared with a from-scratch reference model",
    "note": "all histories to depth 3-4 (quick) / 5-6 (thorough) over all trees of 3-4 parts; 729 / 15625 angle triples",
}

AX = [(0, 0, 1), (0, 2, 0), (1, 1, 0), (3, 0, 4)]
# joint configurations (non-commuting base transforms, unnormalised axes)
JC = [
    ("fixed", 0, ("t", 1, 2, 3), -180.0, 180.0),
    ("revolute", 0, ("t", 5, 0, 0), -90.0, 90.0),
    ("revolute", 2, ("rx", 90), -180.0, 180.0),
    ("prismatic", 3, ("rz", 90), 0.0, 50.0),
    ("cylindrical", 1, ("t", 0, 7, 0), -45.0, 45.0),
    ("spherical", 1, ("ry", 90), -180.0, 180.0),
]
FRAMES = [("F", ("t", 10, 0, 1)), ("G", ("ry", 90))]
VALUES = [0.0, 90.0, -120.0, 37.0]


def ref_tf(spec):
    k = spec[0]
    if k == "t":
        return mat.trans(*spec[1:])
    return mat.rot({"rx": (1, 0, 0), "ry": (0, 1, 0), "rz": (0, 0, 1)}[k], spec[1])


def impl_tf(spec):
    from yapcad.kinematics import Transform

    k = spec[0]
    if k == "t":
        return Transform.from_translation(*spec[1:])
    return getattr(Transform, "from_rotation_" + k[1])(spec[1])


def ref_joint(jc, value):
    typ, ax, base, lo, hi = JC[jc]
    b = ref_tf(base)
    a = AX[ax]
    if typ in ("revolute", "cylindrical"):
        return mat.mul(b, mat.rot(a, value))
    if typ == "prismatic":
        n = sum(c * c for c in a) ** 0.5
        return mat.mul(b, mat.trans(*[c / n * value for c in a]))
    return b


class Ref:
    """Reference: recomputes every pose from scratch."""

    def __init__(self):
        self.parts = {}  # name -> [parent, frame, jc, value]
        self.order = []

    def add(self, name, parent, frame, jc):
        if name in self.parts or (parent is not None and parent not in self.parts):
            return False
        if parent is None:
            frame = "ORIGIN"  # the datum has only its origin
        self.parts[name] = [parent, frame, jc, 0.0]
        self.order.append(name)
        return True

    def set(self, name, v, clamp):
        if name not in self.parts:
            return False
        p = self.parts[name]
        lo, hi = JC[p[2]][3:]
        p[3] = max(lo, min(hi, v)) if clamp else v
        return True

    def frame(self, f):
        return mat.eye() if f == "ORIGIN" else ref_tf(dict(FRAMES)[f])

    def pose(self, name, frame="ORIGIN"):
        p = self.parts[name]
        up = mat.eye() if p[0] is None else self.pose(p[0], p[1])
        w = mat.mul(up, ref_joint(p[2], p[3]))
        return mat.mul(w, self.frame(frame))

    def children(self, name):
        return [n for n in self.order if self.parts[n][0] == name]

    def path(self, name):
        out = []
        while name is not None:
            out.append(name)
            name = self.parts[name][0]
        return out + ["GLOBAL_DATUM"]


def new_part(name, parent, frame, jc):
    from yapcad.kinematics import Joint, JointType, KinematicPart

    typ, ax, base, lo, hi = JC[jc]
    p = KinematicPart(
        name=name,
        parent=parent,
        parent_frame=frame if parent is not None else "ORIGIN",
        joint=Joint("j_" + name, JointType(typ), impl_tf(base), tuple(float(c) for c in AX[ax]), 0.0, lo, hi),
    )
    for f, spec in FRAMES:
        p.add_frame(f, impl_tf(spec), "")
    return p


def check_all(chain, ref, where):
    from yapcad.kinematics import KinematicChain  # noqa: F401

    names = [n for n in chain.parts if n != chain.DATUM_NAME]
    require(sorted(names) == sorted(ref.parts), "%s: parts are %r, expected %r" % (where, sorted(names), sorted(ref.parts)))
    allw = chain.get_all_world_transforms()
    require(sorted(allw) == sorted(ref.parts), "%s: get_all_world_transforms keys %r" % (where, sorted(allw)))
    for n in ref.order:
        for f in ("ORIGIN", "F", "G"):
            got = chain.get_world_transform(n, f).matrix
            want = ref.pose(n, f)
            require(mat.diff(got, want) < 1e-9, "%s: world pose of %s/%s differs from the ancestor product by %.3g" % (where, n, f, mat.diff(got, want)))
        require(mat.diff(allw[n].matrix, ref.pose(n)) < 1e-9, "%s: bulk pose of %s differs" % (where, n))
        require(list(chain.get_children(n)) == ref.children(n), "%s: children of %s are %r" % (where, n, chain.get_children(n)))
        require(list(chain.get_chain_to_root(n)) == ref.path(n), "%s: path of %s is %r" % (where, n, chain.get_chain_to_root(n)))
        desc = sorted(m for m in ref.order if n in ref.path(m)[1:])
        require(sorted(chain.get_all_descendants(n)) == desc, "%s: descendants of %s" % (where, n))
        require(chain.get_joint_value(n) == ref.parts[n][3], "%s: joint value of %s is %r, expected %r" % (where, n, chain.get_joint_value(n), ref.parts[n][3]))
    for a in ref.order:
        for b in ref.order:
            got = chain.get_relative_transform(a, b, "F", "G").matrix
            want = mat.mul(mat.inv_rigid(ref.pose(a, "F")), ref.pose(b, "G"))
            require(mat.diff(got, want) < 1e-9, "%s: relative pose %s/F -> %s/G differs" % (where, a, b))
    require(chain.validate() == [], "%s: validate() reports %r" % (where, chain.validate()))


def state(chain, ref):
    return h([(n, ref.parts[n], bool(chain.parts[n].is_cache_valid())) for n in ref.order])


def judge(kind, case):
    return globals()["judge_" + kind](case)


def judge_history(ops):
    """Replay an operation history; the observable poses must match after it."""
    from yapcad.kinematics import KinematicChain

    chain, ref = KinematicChain("c"), Ref()
    states = []
    label = []
    for op in ops:
        if op[0] == "add":
            _, name, parent, frame, jc = op
            ok = ref.add(name, parent, frame, jc)
            try:
                chain.add_part(new_part(name, parent, frame, jc))
                got = True
            except ValueError:
                got = False
            require(got == ok, "add_part(%s under %s) accepted=%s, expected %s" % (name, parent, got, ok))
            label.append("a" if ok else "A")
        elif op[0] == "set":
            _, name, v, clamp = op
            ok = ref.set(name, v, clamp)
            try:
                chain.set_joint_value(name, v, clamp)
                got = True
            except ValueError:
                got = False
            require(got == ok, "set_joint_value(%s) accepted=%s, expected %s" % (name, got, ok))
            label.append("s" if ok else "S")
        elif op[0] == "ask":
            _, name, f = op
            if name in ref.parts:
                got = chain.get_world_transform(name, f).matrix
                want = ref.pose(name, f)
                require(mat.diff(got, want) < 1e-9, "queried pose of %s/%s differs by %.3g" % (name, f, mat.diff(got, want)))
                label.append("q")
            else:
                try:
                    chain.get_world_transform(name, f)
                    require(False, "query of unknown part %s succeeded" % name)
                except ValueError:
                    label.append("Q")
        states.append(state(chain, ref))
    check_all(chain, ref, "after history")
    return Out("".join(sorted(set(label))), states, len(ops))


def judge_roundtrip(ops):
    """A chain rebuilt from its own export has the same structure and poses."""
    from yapcad.kinematics import KinematicChain

    chain, ref = KinematicChain("c"), Ref()
    for op in ops:
        if op[0] == "add":
            if ref.add(*op[1:]):
                chain.add_part(new_part(*op[1:]))
        else:
            if ref.set(*op[1:]):
                chain.set_joint_value(*op[1:])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "sub", "c.json")
        chain.export_json(path)
        data = json.load(open(path))
        back = KinematicChain.from_json(path)
    require(back.name == "c", "name lost")
    for n in ref.order:
        w = data["parts"][n]["world_transform"]
        require(mat.diff(w["matrix"], ref.pose(n)) < 1e-9, "exported world pose of %s differs" % n)
        from yapcad.kinematics import Transform

        t = Transform.from_dict({"translation": w["translation"], "rotation_xyz": w["rotation_xyz"]})
        require(mat.diff(t.matrix, ref.pose(n)) < 1e-7, "exported translation and angles of %s give another pose" % n)
    # insertion order of siblings may legitimately change: compare as a tree
    for n in ref.order:
        require(sorted(back.get_children(n)) == sorted(ref.children(n)), "children of %s changed in the round trip" % n)
        require(back.get_chain_to_root(n) == ref.path(n), "ancestors of %s changed in the round trip" % n)
        require(back.get_joint_value(n) == ref.parts[n][3], "joint value of %s changed in the round trip" % n)
        j, j0 = back.parts[n].joint, chain.parts[n].joint
        require((j.joint_type, tuple(j.axis), j.min_limit, j.max_limit) == (j0.joint_type, tuple(j0.axis), j0.min_limit, j0.max_limit), "joint definition of %s changed" % n)
        for f in ("ORIGIN", "F", "G"):
            require(mat.diff(back.get_world_transform(n, f).matrix, ref.pose(n, f)) < 1e-9, "pose of %s/%s changed in the round trip" % (n, f))
    # still articulated, with the same limits
    for n in ref.order:
        ref.set(n, 1e6, True)
        back.set_joint_value(n, 1e6)
        ref.set(n, -30.0, True)
        back.set_joint_value(n, -30.0)
    for n in ref.order:
        require(mat.diff(back.get_world_transform(n).matrix, ref.pose(n)) < 1e-9, "re-posed chain differs at %s" % n)
    return Out("n%d" % len(ref.order))


def judge_transform(case):
    """Group laws of rigid transforms on an exhaustive angle grid."""
    from yapcad.kinematics import Transform

    (rx, ry, rz), (x, y, z), ax = case
    want = mat.mul(mat.mul(mat.rot((1, 0, 0), rx), mat.rot((0, 1, 0), ry)), mat.rot((0, 0, 1), rz))
    r = Transform.from_euler_xyz(rx, ry, rz)
    require(mat.diff(r.matrix, want) < 1e-9, "from_euler_xyz%r differs from Rx.Ry.Rz" % ((rx, ry, rz),))
    t = Transform.from_position_rpy(x, y, z, rx, ry, rz)
    wt = mat.mul(mat.trans(x, y, z), want)
    require(mat.diff(t.matrix, wt) < 1e-9, "from_position_rpy differs")
    require(mat.diff(t.inverse().matrix, mat.inv_rigid(wt)) < 1e-9, "inverse differs")
    require(mat.diff((t @ t.inverse()).matrix, mat.eye()) < 1e-9, "T @ T^-1 is not the identity")
    e = t.to_euler_xyz()
    require(mat.diff(Transform.from_euler_xyz(*e).matrix, want) < 1e-6, "to_euler_xyz gives %r, another rotation" % (e,))
    p = (1.5, -2.0, 3.0)
    for w, got in ((1.0, t.transform_point(p)), (0.0, t.transform_vector(p))):
        require(max(abs(a - b) for a, b in zip(got, mat.app(wt, p, w))) < 1e-9, "applying the transform differs (w=%g)" % w)
    require(tuple(t.translation) == (x, y, z), "translation differs")
    a = Transform.from_axis_angle(AX[ax], rx)
    wa = mat.rot(AX[ax], rx)
    require(mat.diff(a.matrix, wa) < 1e-9, "from_axis_angle differs")
    require(mat.diff((a @ t).matrix, mat.mul(wa, wt)) < 1e-9, "composition differs")
    require(mat.diff(Transform.from_dict(t.to_dict()).matrix, wt) < 1e-9, "dict round trip differs")
    return Out("gimbal" if abs(ry) % 180 == 90 else "free")


def trees(n):
    """Every labelled rooted forest where part i hangs from an earlier part."""
    names = ["A", "B", "C", "D", "E"][:n]
    for par in itertools.product(*[[None] + names[:i] for i in range(n)]):
        yield names, list(par)


def gen_bfs(n, jcsets, frames, opsets, depth):
    for names, par in trees(n):
        for jcs in jcsets:
            base = [["add", nm, p, frames[i % len(frames)], jcs[i]] for i, (nm, p) in enumerate(zip(names, par))]
            ops = opsets(names)
            for seq in itertools.product(ops, repeat=depth):
                yield base + [list(s) for s in seq]


def gen_interleaved(depth):
    """Adds, sets and queries interleaved, including rejected operations."""
    ops = [
        ["add", "A", None, "ORIGIN", 1],
        ["add", "B", "A", "F", 2],
        ["add", "C", "B", "G", 3],
        ["add", "C", "A", "F", 4],
        ["set", "A", 45.0, True],
        ["set", "B", 30.0, True],
        ["set", "A", 200.0, False],
        ["ask", "C", "F"],
        ["ask", "B", "ORIGIN"],
    ]
    for seq in itertools.product(ops, repeat=depth):
        yield [list(o) for o in seq]


def run(ctx):
    ctx.assumptions = [
        "frames are defined before the part is attached; joint values change through set_joint_value only",
        "tolerance 1e-9 on matrix entries of magnitude <= 1e3",
    ]

    def ops3(names):
        o = []
        for i, n in enumerate(names):
            o.append(["set", n, VALUES[1 + i % 3], True])
            o.append(["ask", n, "G" if i % 2 else "ORIGIN"])
        return o

    def ops4(names):
        o = []
        for i, n in enumerate(names):
            o.append(["set", n, 200.0 if i % 2 else -33.0, bool((i + 1) % 3)])
            o.append(["ask", n, "F"])
        return o

    q = [
        ("history", gen_bfs(3, [(1, 2, 3), (4, 5, 1)], ["F", "G"], ops3, ctx.pick(3, 5))),
        ("history", gen_bfs(4, [(2, 3, 1, 4)], ["G", "F", "ORIGIN"], ops4, ctx.pick(2, 4))),
        ("history", gen_interleaved(ctx.pick(4, 6))),
    ]

    def rts():
        for n in (1, 2, 3, 4):
            for names, par in trees(n):
                for k in range(6):
                    base = [["add", nm, p, "FG"[i % 2], (i + k) % 6] for i, (nm, p) in enumerate(zip(names, par))]
                    yield base + [["set", nm, VALUES[(i + k) % 4], True] for i, nm in enumerate(names)]

    ang = range(-180, 181, ctx.pick(45, 15))
    tf = ([[a, b, c], [1, -2, 3], (i % 4)] for i, (a, b, c) in enumerate(itertools.product(ang, ang, ang)))
    ctx.explore(judge, q + [("roundtrip", rts()), ("transform", tf)])
