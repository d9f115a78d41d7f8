"""P18: box overlap and quadtree/octree lookups are exact."""
import copy
import itertools

from mc.core import Out, h, require

META = {
    "id": "P18",
    "title": "Quadtree and octree lookups find exactly the overlapping elements",
    "statement": "`NTree.getElements` returns each element whose bounding box meets the query box (touching counts) exactly once, with its tag, and no other, whatever the dimension, split center, depth and size limits, element distribution, and order of additions, queries and updates. `boxoverlap2` decides exactly whether two boxes meet in 2D or 3D, and `bbox2quad`/`bbox2oct` name every part a box reaches. Caller values are not changed.",
    "over": ["inputs", "histories"],
    "forall": "every pair of boxes over a coordinate grid, every subset of an element alphabet large enough to split a node, against every query box, and every history of additions, queries and updates to a bounded depth",
    "why": "A lookup can miss an element only when it straddles or touches a split plane in a deep enough tree; the suite has a few random scenes.",
    "files": ["src/yapcad/octtree.py"],
    "mech": [["overlap", "octtree.py:boxoverlap2"], ["assignment", "octtree.py:bbox2quad"], ["tree", "octtree.py:NTree.updateTree"], ["lookup", "octtree.py:NTree.getElements"]],
    "technique": "explicit enumeration of box pairs, element sets and operation histories to a bounded depth on the real tree, each lookup compared with a linear scan",
    "note": "grid coordinates, so boxes and split planes touch exactly; trees with an explicit center outside of their elements are not judged",
}


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, (list, tuple)) else x


def judge(kind, case):
    return globals()["judge_" + kind](tup(case))


def P(p):
    from yapcad.geom import point
    return point(float(p[0]), float(p[1]), float(p[2]) if len(p) > 2 else 0.0)


def meets(a, b, dim):
    return all(a[0][i] <= b[1][i] and b[0][i] <= a[1][i] for i in range(dim))


def intervals(cs):
    return [(a, b) for a in cs for b in cs if a <= b]


def judge_overlap(case):
    """one box against every box of the grid"""
    box, cs, dim = case
    from yapcad.octtree import boxoverlap2

    a = [P([c[0] for c in box]), P([c[1] for c in box])]
    keep = copy.deepcopy(a)
    n = 0
    for other in itertools.product(intervals(cs), repeat=3 if dim == 3 else 2):
        b = [P([c[0] for c in other]), P([c[1] for c in other])]
        if dim == 2:
            b[0][2], b[1][2] = 7.0, 9.0  # must not matter
        got = boxoverlap2(a, b, dim3=dim == 3)
        require(got is True or got is False, "boxoverlap2 gives %r" % (got,))
        require(got == meets(a, b, dim), "boxoverlap2(%r, %r, dim3=%r) is %r" % (a, b, dim == 3, got))
        n += 1
    require(a == keep, "boxoverlap2 changes its argument")
    return Out("overlap %dd" % dim, steps=n)


QUAD = {0: (1, 1), 1: (-1, 1), 2: (-1, -1), 3: (1, -1)}


def judge_part(case):
    box, center = case
    from yapcad.octtree import bbox2oct, bbox2quad

    ref = [P((-4, -4, -4)), P((4, 4, 4))]
    b = [P([c[0] for c in box]), P([c[1] for c in box])]
    c = P(center)
    for name, got, dims in (("bbox2quad", bbox2quad(b, ref, c), 2), ("bbox2oct", bbox2oct(b, ref, c), 3)):
        require(got, "%s names no part for %r about %r" % (name, b, center))
        require(len(set(got)) == len(got), "%s names a part twice: %r" % (name, got))
        for k in range(4 if dims == 2 else 8):
            s = QUAD[k % 4] + ((1 if k > 3 else -1),)
            reach = all((b[1][i] > c[i] if s[i] > 0 else b[0][i] < c[i]) for i in range(dims))
            touch = all((b[1][i] >= c[i] if s[i] > 0 else b[0][i] <= c[i]) for i in range(dims))
            require(k in got or not reach, "%s(%r) about %r leaves out part %d" % (name, b, center, k))
            require(k not in got or touch, "%s(%r) about %r names part %d, which it does not reach" % (name, b, center, k))
    return Out("parts")


# elements: a box is held by its diagonal line or, flat, by a triangle
def element(b, form):
    lo, hi = P(b[0]), P(b[1])
    if form == "tri":
        return [lo, hi, P((b[0][0], b[1][1], b[0][2]))]
    return [[lo, hi]]


BOX2 = [((0, 0, 0), (1, 1, 0)), ((1, 1, 0), (2, 2, 0)), ((-4, -4, 0), (4, 4, 0)), ((-4, 0, 0), (4, 0.5, 0)), ((-0.5, -4, 0), (0, 4, 0)), ((3, 3, 0), (4, 4, 0)), ((-4, -4, 0), (-3, -3, 0)), ((0, 1, 0), (0, 2, 0)),
        ((2, -3, 0), (3, -2, 0)), ((0, 0, 0), (4, 4, 0)), ((-1, -1, 0), (0, 0, 0)), ((1, 0, 0), (3, 0, 0))]
BOX3 = [((0, 0, 0), (1, 1, 1)), ((1, 1, 1), (2, 2, 2)), ((-4, -4, -4), (4, 4, 4)), ((-4, 0, 0), (4, 0.5, 1)), ((-0.5, -4, -1), (0, 4, 0)), ((3, 3, 3), (4, 4, 4)), ((-4, -4, -4), (-3, -3, -3)), ((-2, 1, 2), (-1, 3, 4)),
        ((2, -3, 0), (3, -2, 0)), ((0, 0, 0), (4, 4, 4)), ((-1, -1, -1), (0, 0, 0)), ((-4, 3, -2), (-2, 4, -1)), ((0, 0, 1), (0, 0, 3))]
CS = (-4, -1, 0, 2, 2.25, 4)
QI = [(-4, -3.5), (-4, 0), (-1, -0.25), (0, 0), (0.5, 0.75), (0, 2), (2, 4), (2.25, 2.25), (-9, 9), (4, 9)]


def check_query(t, els, q, dim, what):
    qb = [P([c[0] for c in q]), P([c[1] for c in q])]
    got = t.getElements(qb)
    want = [e for e, b in els if meets(b, ([c[0] for c in q], [c[1] for c in q]), dim)]
    for e in want:
        require(sum(g is e or g == e for g in got) == sum(w == e for w in want), "%s: getElements(%r) misses or repeats %r: %d found, %d expected" % (what, q, e, len(got), len(want)))
    require(len(got) == len(want), "%s: getElements(%r) gives %d elements, expected %d" % (what, q, len(got), len(want)))
    return len(want)


CONF = [{}, {"mindim": 0.25}, {"mindim": 0.25, "maxdepth": 1}, {"center": (1, 0.5, 0.25), "mindim": 0.25}, {"mindim": 3.0}]


def kwargs(c, dim):
    return {k: P(v[:dim]) if k == "center" else v for k, v in c.items()}


def judge_tree(case):
    n, ids, conf = case
    from yapcad.octtree import NTree

    dim, alpha = (2, BOX2) if n == 4 else (3, BOX3)
    els = [(element(alpha[i], "tri" if n == 8 and i % 2 else "line"), alpha[i]) for i in ids]
    geom = [e for e, _ in els]
    keep = copy.deepcopy(geom)
    t = NTree(n=n, geom=geom, **kwargs(CONF[conf], dim))
    hits = 0
    for q in itertools.product(QI, repeat=dim):
        if dim == 3 and q[2] not in (QI[1], QI[3], QI[5], QI[8]) or dim == 3 and q[1] in (QI[0], QI[4]):
            continue
        hits += check_query(t, els, q, dim, "n=%d %r of %r" % (n, CONF[conf], ids))
    require(geom == keep, "the list given to NTree is changed")
    return Out("tree %d depth %d" % (n, t.depth), [h((n, ids, conf, t.depth))], hits)


OPSH = [("add", 2, 0), ("add", 6, None), ("add", 9, "far"), ("query", 3), ("query", 8), ("center",), ("center", (0.5, 0.5, 0.5)), ("tree",), ("mindim", 0.25), ("maxdepth", 1)]


def judge_hist(case):
    n, ids, ops = case
    from yapcad.octtree import NTree

    dim, alpha = (2, BOX2) if n == 4 else (3, BOX3)
    els = [(element(alpha[i], "line"), alpha[i]) for i in ids]
    given = [e for e, _ in els]
    keep = copy.deepcopy(given)
    t = NTree(n=n, geom=given) if given else NTree(n=n)
    what = "n=%d %r then %r" % (n, ids, ops)
    k = 0
    for op in ops:
        if op[0] == "add":
            b = tuple(tuple(c + (0.5 * k if i < dim else 0) for i, c in enumerate(p)) for p in alpha[op[1]])
            e = element(b, "line")
            t.addElement(e) if op[2] is None else t.addElement(e, tag=op[2])
            els.append((e if op[2] is None else (e, op[2]), b))
            k += 1
        elif op[0] == "query":
            check_query(t, els, (QI[op[1]],) * dim, dim, what)
        elif op[0] == "center":
            c = P(op[1][:dim]) if len(op) > 1 else None
            t.updateCenter(c)
        elif op[0] == "tree":
            t.updateTree()
        else:
            setattr(t, op[0], op[1])
    for q in QI:
        check_query(t, els, (q,) * dim, dim, what)
    require(given == keep, "the list given to NTree is changed")
    return Out("history", [h((n, len(els), t.depth))], len(ops))


def run(ctx):
    c3 = (0, 1, 2) if not ctx.thorough else (0, 1, 2, 3)
    pairs = [(b, (0, 1, 2, 3), 2) for b in itertools.product(intervals((0, 1, 2, 3)), repeat=2)]
    pairs += [(b, c3, 3) for b in itertools.product(intervals(c3), repeat=3)]
    pairs += [(b, (0, 1, 2, 3), 3) for b in ([(0, 3), (1, 2), (1, 2)], [(1, 2), (0, 3), (1, 2)], [(1, 2), (1, 2), (0, 3)], [(1, 2)] * 3, [(0, 3), (0, 3), (1, 2)], [(2, 2), (0, 3), (1, 1)], [(0, 1)] * 3, [(2, 3)] * 3)]
    ci = intervals((-4, -1, 0, 1, 3))
    parts = [(b, c) for b in itertools.product(ci, repeat=3) for c in ((0, 0, 0), (1, 0, -1))]
    trees = []
    for k in (5, 6, 7) if ctx.thorough else (5, 7):
        trees += [(4, c, f) for c in itertools.combinations(range(len(BOX2)), k) for f in range(len(CONF))]
    trees += [(4, tuple(range(len(BOX2))), f) for f in range(len(CONF))] + [(4, (a, b), f) for a, b in itertools.combinations(range(len(BOX2)), 2) for f in range(len(CONF))]
    for k in (9, 10, 11, 13) if ctx.thorough else (9, 12):
        trees += [(8, c, f) for c in itertools.combinations(range(len(BOX3)), k) for f in range(len(CONF)) if ctx.thorough or sum(c) % len(CONF) == f]
    start = {4: [(), (1, 5), (0, 1, 4, 7), (0, 1, 3, 4, 5, 8)], 8: [(), (0, 1, 4, 5, 7, 8, 11, 12)]}
    hists = []
    for n in (4, 8):
        for s in start[n]:
            for d in range(1, 5 if ctx.thorough else 4):
                for ops in itertools.product(OPSH, repeat=d):
                    if ops[0] == ("center", (0.5, 0.5, 0.5)) and not s:
                        continue
                    hists.append((n, s, ops))
    ctx.explore(judge, [("overlap", pairs), ("part", parts), ("tree", trees), ("hist", hists)], batch=20)
    ctx.notes["reference"] = "linear scan over the elements' boxes, closed intervals compared per axis"
