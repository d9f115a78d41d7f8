"""P01: running a DSL command gives the value the language defines."""
import itertools

from mc import dslrun
from mc.core import Out

META = {
    "id": "P01",
    "title": "A DSL program computes the value the language defines",
    "statement": "Running a command of a design program yields exactly the value given by its definition: assignment rebinds the visible variable, blocks scope their own declarations, conditionals and bounded loops run in order, logical operators short-circuit, emitting ends the command at once, and comprehensions, lists, calls with positional, named and default arguments compose as written. A broken requirement anywhere, including in a called helper, makes the run unsuccessful and is reported with its text; a run-time fault gives a failed result, never a value. The result depends on the program and its parameters only.",
    "over": ["programs", "inputs"],
    "forall": "every program of the bounded grammar (up to 2-3 statements with nested bodies, helpers, calls, comprehensions, list expressions) and every parameter value of the alphabet",
    "why": "The suite runs a few dozen fixed programs; scoping, early exit, argument binding and element typing interact, and only an enumeration of small programs covers their combinations.",
    "files": ["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/context.py", "src/yapcad/dsl/runtime/values.py", "src/yapcad/dsl/parser.py", "src/yapcad/dsl/checker.py"],
    "mech": [["tree-walking evaluation with scoped environments", "dsl/runtime/interpreter.py"], ["scope chain", "dsl/runtime/context.py:Scope"]],
    "technique": "bounded exhaustive enumeration of programs, each executed on the real compiler and interpreter and compared with a reference evaluator",
    "note": "about 80k programs quick (all 1-2 statement programs over the alphabet), about 2.5M thorough; numeric values compared to 1e-12",
}

I = lambda n: ["i", n]
V = lambda n: ["v", n]
B = lambda op, l, r: ["bin", op, l, r]
a, b, c, i, j, x, y = map(V, "abcijxy")

ATOMS = [
    ["set", "a", B("+", a, I(1))],
    ["set", "b", B("*", a, I(2))],
    ["set", "c", B("-", b, a)],
    ["decl", "a", "int", B("+", b, I(5))],
    ["emit", a],
    ["emit", B("+", b, I(50))],
    ["req", B("<", a, I(2)), "a small"],
    ["let", "b", None, I(7)],
]
LOOP = [["set", "a", B("+", a, i)], ["emit", B("+", i, B("*", a, I(10)))]]
CONDS = [B(">", a, I(1)), B("and", B("!=", a, I(0)), B("==", B("//", I(4), a), I(4)))]


def statements():
    out = [s for s in ATOMS]
    bodies = [[s] for s in ATOMS] + [[s, t] for s in ATOMS for t in ATOMS]
    for cd in CONDS:
        out += [["if", cd, bd, [], None] for bd in bodies]
    for bd, el in itertools.product(bodies[:8], bodies[:8]):
        out += [["if", CONDS[0], bd, [], el]]
        out += [["if", CONDS[0], bd, [[B("==", a, I(1)), el]], None]]
        for k in (0, 2, 5):
            out += [["if", CONDS[0], bd, [[B("==", a, I(1)), el]], [ATOMS[k]]]]
    la = ATOMS[:6] + LOOP
    nest = [["if", B(">", i, I(0)), [s], [], None] for s in la]
    nest += [["for", "j", ["range", I(2)], [s], ] for s in la]
    nest += [["for", "j", ["range", i], [["set", "a", B("+", a, j)]]]]
    for it in (["range", I(3)], ["range", a, I(3)], ["list", [I(2), I(5)]]):
        out += [["for", "i", it, [s]] for s in la + nest]
        out += [["for", "i", it, [s, t]] for s in la for t in la + nest]
        out += [["for", "i", it, [s, t]] for s in nest for t in la]
    return out


FIN = ["emit", B("+", B("*", a, I(100)), b)]
PRE = [["decl", "a", "int", V("p")], ["set", "b", I(1)]]


def main(stmts, ret="int"):
    return [{"name": "C", "params": [["p", "int", None]], "ret": ret, "body": PRE + stmts + [FIN]}]


def g_statements(ctx):
    S = statements()
    for s in S:
        for p in (0, 1, 2, 3):
            yield [main([s]), {"p": p}]
    short = [s for s in S if len(str(s)) < 130]
    if ctx.thorough:
        pairs = itertools.product(S, S)
    else:
        pairs = itertools.chain(itertools.product(ATOMS, S), itertools.product(S, ATOMS), itertools.product(short, short))
    for n, (s, t) in enumerate(pairs):
        yield [main([s, t]), {"p": (0, 1, 2)[n % 3]}]
    for t in itertools.product(ATOMS + LOOP[:0], repeat=3):
        yield [main(list(t)), {"p": 1}]


def g_calls(ctx):
    hb = [
        [["emit", B("+", B("*", x, I(10)), y)]],
        [["if", B("<=", x, I(0)), [["emit", y]], [], None], ["emit", ["call", "h", [B("-", x, I(1)), B("+", y, I(1))], {}]]],
        [["for", "i", ["range", I(4)], [["if", B("==", i, x), [["emit", B("*", i, y)]], [], None]]], ["emit", I(-9)]],
        [["req", B(">", x, I(1)), "x big"], ["set", "x", B("+", x, I(1))], ["emit", B("*", x, y)]],
        [["if", B(">", x, I(1)), [["emit", y]], [], None]],
        [["emit", B("//", y, x)]],
    ]
    params = [
        [["x", "int", None], ["y", "int", B("+", x, I(1))]],
        [["x", "int", I(2)], ["y", "int", B("*", x, x)]],
        [["x", "int", None], ["y", "int", None]],
    ]
    num = [I(0), I(2), a]
    cl = []
    for n in (0, 1, 2, 3):
        for args in itertools.product(num, repeat=n):
            if n < 3 or args == (I(0), I(2), a):
                cl.append(["call", "h", list(args), {}])
    for e in num:
        cl += [["call", "h", [], {"x": e}], ["call", "h", [], {"y": e}], ["call", "h", [e], {"y": I(3)}], ["call", "h", [e], {"x": I(3)}],
               ["call", "h", [], {"y": e, "x": I(1)}], ["call", "h", [e], {"z": I(3)}], ["call", "h", [], {"x": I(3), "y": e}], ["call", "h", [e, I(1)], {"y": a}]]
    cl += [["call", "h", [["call", "h", [I(2), I(3)], {}], a], {}], ["call", "h", [I(2)], {"y": ["call", "h", [I(1), I(1)], {}]}]]
    for pr, bd in itertools.product(params, hb):
        h = {"name": "h", "params": pr, "ret": "int", "body": bd}
        for e in cl:
            uses = [
                [["emit", e]],
                # the caller's own x and y must not leak into the callee
                [["decl", "x", "int", I(40)], ["decl", "y", "int", I(50)], ["decl", "r", "int", e], ["emit", B("+", B("*", x, I(1000)), V("r"))]],
                [["for", "i", ["range", I(2)], [["set", "a", B("+", a, e)]]], ["emit", a]],
                [["emit", ["if", B(">", a, I(0)), e, I(5)]]],
                [["emit", ["idx", ["comp", e, [["a", ["range", I(3)], []]]], I(1)]]],
            ]
            for k, u in enumerate(uses):
                if k < 2 or ctx.thorough or pr is params[0]:
                    yield [[{"name": "C", "params": [["a", "int", I(1)]], "ret": "int", "body": u}, h], {"a": 2} if k % 2 else {}]


def g_mutual(ctx):
    """Chains and cycles of commands: contracts and emits across several levels."""
    bodies = lambda nxt: [
        [["emit", ["call", nxt, [B("-", x, I(1))], {}]]],
        [["req", B(">", x, I(2)), "lev " + nxt], ["emit", B("+", x, ["call", nxt, [B("-", x, I(1))], {}])]],
        [["if", B("<", x, I(2)), [["emit", x]], [], None], ["emit", B("*", I(2), ["call", nxt, [B("-", x, I(1))], {}])]],
        [["emit", x]],
        [["set", "x", B("*", x, I(3))], ["req", B("<", x, I(8)), None], ["emit", x]],
    ]
    for A, Bb, D in itertools.product(range(5), range(5), range(5)):
        names = ["C", "f", "g"]
        cmds = [{"name": n, "params": [["x", "int", I(3)]], "ret": "int", "body": bodies(names[(k + 1) % 3])[w]} for k, (n, w) in enumerate(zip(names, (A, Bb, D)))]
        for v in (1, 2, 3, 5):
            yield [cmds, {"x": v}]


def g_comp(ctx):
    els = [x, B("+", x, y), B("*", x, I(2)), ["if", B(">", x, I(1)), x, y], ["list", [x, y]], ["list", [x]], ["comp", B("+", x, V("z")), [["z", ["range", x], []]]]]
    its = [V("xs"), ["range", I(3)], ["range", x], ["list", [y, I(2)]], ["list", []]]
    cs = [[], [B(">", x, I(1))], [B("!=", x, y)], [B(">", x, I(0)), B("<", B("//", I(6), x), I(5))]]
    pre = [["decl", "xs", ["list", "int"], ["list", [I(1), I(0), I(3)]]], ["decl", "x", "int", I(4)], ["decl", "y", "int", I(1)]]
    typ = lambda e: ["list", "int"] if e[0] != "list" and e[0] != "comp" else ["list", ["list", "int"]]
    for e in els:
        for it, cd in itertools.product(its, cs):
            for v in ("x", "y", "w"):
                cp = ["comp", e, [[v, it, cd]]]
                yield [[{"name": "C", "params": [], "ret": typ(e), "body": pre + [["emit", cp]]}], {}]
                # the loop variables are local to the comprehension
                yield [[{"name": "C", "params": [], "ret": "int", "body": pre + [["decl", "q", typ(e), cp], ["emit", B("+", B("*", x, I(10)), y)]]}], {}]
        for i1, c1, i2, c2 in itertools.product(its, cs, its, cs[: 4 if ctx.thorough else 3]):
            yield [[{"name": "C", "params": [], "ret": typ(e), "body": pre + [["emit", ["comp", e, [["x", i1, c1], ["y", i2, c2]]]]]}], {}]
        if ctx.thorough:
            for i1, i2, i3, c3 in itertools.product(its, its, its, cs):
                yield [[{"name": "C", "params": [], "ret": typ(e), "body": pre + [["emit", ["comp", e, [["x", i1, []], ["y", i2, [cs[2][0]]], ["x", i3, c3]]]]]}], {}]


def g_lists(ctx):
    els = [I(1), ["f", 2.5], I(-3), ["f", 0.0]]
    lits = [["list", list(t)] for n in range(0, 4) for t in itertools.product(els, repeat=n)]
    F = ["list", "float"]
    for l in lits:
        yield [[{"name": "C", "params": [], "ret": F, "body": [["decl", "l", F, l], ["emit", V("l")]]}], {}]
        for k in (-4, -1, 0, 1, 2, 3):
            for e in (B("+", ["idx", V("l"), I(k)], I(1)), B("*", I(3), ["idx", V("l"), I(k)]), B("-", ["neg", ["idx", V("l"), I(k)]], I(2)), B("%", ["idx", V("l"), I(k)], I(2)), B("/", I(1), ["idx", V("l"), I(k)])):
                yield [[{"name": "C", "params": [], "ret": "float", "body": [["decl", "l", F, l], ["emit", e]]}], {}]
        # accumulate over it
        yield [[{"name": "C", "params": [], "ret": "float", "body": [["decl", "s", "float", ["f", 0]], ["for", "v", l, [["set", "s", B("+", B("*", V("s"), I(2)), B("+", V("v"), I(1)))]]], ["emit", V("s")]]}], {}]
        yield [[{"name": "C", "params": [["l", F, None]], "ret": "float", "body": [["decl", "s", "float", ["f", 0]], ["for", "v", V("l"), [["set", "s", B("+", V("s"), B("+", V("v"), I(1)))]]], ["emit", V("s")]]}], {"l": [e[1] for e in l[1]]}]
        yield [[{"name": "C", "params": [], "ret": F, "body": [["emit", ["comp", B("+", V("v"), I(1)), [["v", l, []]]]]]}], {}]
        if len(l[1]) < 3:
            for m in lits:
                if len(m[1]) < 3:
                    cat = B("+", l, m)
                    yield [[{"name": "C", "params": [], "ret": F, "body": [["decl", "l", F, cat], ["emit", ["comp", B("+", V("v"), I(1)), [["v", V("l"), []]]]]]}], {}]
                    FF = ["list", F]
                    nest = ["list", [l, m]]
                    for k in (0, 1):
                        yield [[{"name": "C", "params": [], "ret": F, "body": [["decl", "l", FF, nest], ["emit", ["comp", B("+", V("v"), I(1)), [["v", ["idx", V("l"), I(k)], []]]]]]}], {}]
    # growing a list in a loop
    for init, el, n in itertools.product([["list", []], ["list", [I(1)]], ["list", [["f", 1.5]]]], [i, B("/", i, I(2)), B("+", i, ["f", 0.5])], range(4)):
        yield [[{"name": "C", "params": [], "ret": F, "body": [["decl", "l", F, init], ["for", "i", ["range", I(n)], [["set", "l", B("+", V("l"), ["list", [el]])]]], ["emit", ["comp", B("*", V("v"), I(2)), [["v", V("l"), []]]]]]}], {}]


def g_guards(ctx):
    """Only the guards up to the one taken are evaluated: later ones may be faulty."""
    C = [B(">", a, I(1)), B("==", a, I(0)), B(">", B("//", I(4), a), I(1)), B(">", ["call", "h", [a, I(1)], {}], I(3)), B("==", ["idx", ["list", [I(1), I(2)]], a], I(2)), ["b", False]]
    h = {"name": "h", "params": [["x", "int", None], ["y", "int", None]], "ret": "int", "body": [["req", B("<", x, I(2)), "x small"], ["emit", B("+", x, y)]]}
    for c1, c2, c3 in itertools.product(C, repeat=3):
        for el in (None, [["emit", I(4)]]):
            st = ["if", c1, [["emit", I(1)]], [[c2, [["emit", I(2)]]], [c3, [["emit", I(3)]]]], el]
            for p in range(-1, 4):
                yield [[{"name": "C", "params": [["a", "int", None]], "ret": "int", "body": [st, ["emit", I(9)]]}, h], {"a": p}]
        ex = [["if", c1, I(1), ["if", c2, I(2), ["if", c3, I(3), I(4)]]]]
        ex += [["if", B(o1, c1, B(o2, c2, c3)), I(1), I(2)] for o1 in ("and", "or") for o2 in ("and", "or")]
        ex += [["if", B(o1, B(o2, c1, c2), c3), I(1), I(2)] for o1, o2 in (("and", "or"), ("or", "and"))]
        for e in ex:
            for p in range(-1, 4):
                yield [[{"name": "C", "params": [["a", "int", None]], "ret": "int", "body": [["emit", e]]}, h], {"a": p}]


def judge(kind, case):
    cmds, params = case
    lab = dslrun.compare(cmds, "C", params)
    if kind == "calls":
        # a second run of the same program gives the same outcome
        lab = dslrun.compare(cmds, "C", params, note=" (again)")
    return Out(lab)


def run(ctx):
    ctx.assumptions = ["programs are over int, float, bool and list values; geometry values are covered by other properties", "no embedded Python blocks, lambdas or match expressions"]
    ctx.explore(judge, [(k, g(ctx)) for k, g in (("calls", g_calls), ("guards", g_guards), ("mutual", g_mutual), ("comp", g_comp), ("lists", g_lists), ("statements", g_statements))], batch=200)
