"""P03: the checker accepts exactly the well-typed programs."""
import itertools

from mc import dslrun
from mc.core import Out, require

META = {
    "id": "P03",
    "title": "The DSL checker accepts exactly the well-typed programs",
    "statement": "A program is refused before it runs if and only if it breaks the typing rules: operators applied to operands of the wrong type, a declared, assigned, emitted or passed value that does not fit, a condition that is not boolean, iteration over or indexing of a scalar, an undefined or out-of-scope or twice-declared name, or a call with the wrong number or names of arguments. An accepted program never fails at run time for a type reason, and what it emits has the declared type. Refusal is a failed result with a diagnostic; nothing of the program has run.",
    "over": ["programs"],
    "forall": "every expression of depth up to 2 over typed atoms and every operator, in every typed context; every sequence of up to 3 (thorough 4) declaring, assigning and using statements with nesting",
    "why": "The rules form a product of operators, operand types and contexts which tests sample thinly; one wrong entry lets a bad design through or rejects a good one.",
    "files": ["src/yapcad/dsl/checker.py", "src/yapcad/dsl/types.py", "src/yapcad/dsl/symbols.py"],
    "mech": [["type checker", "dsl/checker.py:TypeChecker"], ["assignability", "dsl/types.py"]],
    "technique": "bounded exhaustive enumeration of programs, checker verdict compared with a reference type system and with what the program then does",
    "note": "about 130k programs quick; int, float, bool, string and nested list types; one known finding (int ** negative int)",
}

I = lambda n: ["i", n]
V = lambda n: ["v", n]
BINOPS = ["or", "and", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "//", "%", "**"]
LI, LF, LLI = ["list", "int"], ["list", "float"], ["list", ["list", "int"]]
TYPES = ["int", "float", "bool", "string", LI, LF, LLI]
ATOMS = [I(2), ["f", 2.5], ["b", True], ["s", "t"], ["list", [I(1), I(2)]], ["list", [["f", 0.5]]], ["list", []], ["list", [["list", [I(1)]], ["list", []]]]]
VARS = [["vi", "int", I(3)], ["vf", "float", I(3)], ["vb", "bool", ["b", False]], ["vs", "string", ["s", "u"]], ["vl", LI, ["list", [I(4), I(5)]]], ["vm", LF, ["list", [I(4), ["f", 5.5]]]], ["vn", LLI, ["list", [["list", [I(7)]]]]]]
PRE = [["decl", n, t, e] for n, t, e in VARS]
VATOMS = [V(v[0]) for v in VARS]


def depth1(atoms):
    for op in BINOPS:
        for l, r in itertools.product(atoms, repeat=2):
            yield ["bin", op, l, r]
    for a in atoms:
        yield ["neg", a]
        yield ["not", a]
        for b in atoms:
            yield ["list", [a, b]]
            yield ["idx", a, b]
            yield ["if", ["b", True], a, b]
            yield ["if", ["b", False], a, b]
        yield ["if", a, I(1), I(2)]
        yield ["range", a]
        yield ["range", I(0), a]
        yield ["comp", V("w"), [["w", a, []]]]
        yield ["comp", a, [["w", ["range", I(2)], []]]]
        yield ["comp", V("w"), [["w", ["range", I(2)], [a]]]]


def contexts(e):
    """Programs that use e where a type is demanded."""
    C = lambda body, ret="int": [{"name": "C", "params": [], "ret": ret, "body": PRE + body}]
    for t in TYPES:
        yield C([["decl", "z", t, e], ["emit", V("z")]], t)
        yield C([["emit", e]], t)
    yield C([["if", e, [["emit", I(1)]], [], [["emit", I(2)]]]])
    yield C([["req", e, "m"], ["emit", I(1)]])
    yield C([["decl", "n", "int", I(0)], ["for", "q", e, [["set", "n", ["bin", "+", V("n"), I(1)]]]], ["emit", V("n")]])


def g_expr(ctx):
    for e in ATOMS + VATOMS:
        for p in contexts(e):
            yield [p, {}]
    for e in depth1(ATOMS[:5] + VATOMS):
        for p in contexts(e):
            yield [p, {}]


def g_deep(ctx):
    small = [V("vi"), V("vf"), V("vb"), V("vl")] + ([V("vs"), V("vn")] if ctx.thorough else [])
    ops = BINOPS if ctx.thorough else ["and", "==", "<", "+", "/", "//", "%", "**"]
    for o1, o2 in itertools.product(ops, repeat=2):
        for a, b, c in itertools.product(small, repeat=3):
            for e in (["bin", o1, ["bin", o2, a, b], c], ["bin", o1, a, ["bin", o2, b, c]]):
                for t in ("int", "float", "bool", LI):
                    yield [[{"name": "C", "params": [], "ret": t, "body": PRE + [["emit", e]]}], {}]
    inner = [I(1), ["f", 1.5], ["b", True], ["list", [I(1)]], ["list", []], ["list", [["f", 1.5], I(1)]]]
    for a, b in itertools.product(inner, repeat=2):
        for e in (["list", [["list", [a]], ["list", [b]]]], ["list", [["list", [a, b]], ["list", []]]], ["list", [["list", []], ["list", [a, b]]]],
                  ["if", V("vb"), ["list", [a]], ["list", [b]]], ["comp", ["list", [V("w"), a]], [["w", ["list", [b]], []]]],
                  ["comp", ["if", ["bin", ">", V("w"), I(0)], a, b], [["w", ["range", I(2)], []]]],
                  ["bin", "+", ["list", [a]], ["list", [b]]], ["idx", ["bin", "+", ["list", [a]], ["list", [b]]], I(1)],
                  ["idx", ["list", [["list", [a]], ["list", [b]]]], I(1)], ["idx", ["idx", ["list", [["list", [a]], ["list", [b]]]], I(1)], I(0)]):
            for p in contexts(e):
                yield [p, {}]


STM = [
    ["decl", "x", "int", I(1)], ["decl", "x", "float", I(2)], ["let", "x", None, ["f", 1.5]], ["let", "x", LI, ["list", []]],
    ["set", "x", I(4)], ["set", "x", ["f", 4.5]], ["set", "x", ["list", [I(1)]]], ["set", "y", V("x")],
    ["decl", "y", "int", V("x")], ["let", "y", None, ["bin", "+", V("x"), I(1)]], ["decl", "y", "bool", ["b", True]],
    ["if", ["b", True], [["let", "x", None, I(9)], ["set", "y", V("x")]], [], None],
    ["if", ["b", True], [["decl", "y", "int", I(3)]], [], [["set", "x", I(2)]]],
    ["if", ["b", False], [["emit", V("y")]], [[["b", True], [["set", "x", I(7)]]]], None],
    ["for", "x", ["range", I(2)], [["let", "y", None, V("x")]]], ["for", "i", ["range", I(2)], [["set", "x", V("i")]]],
    ["for", "i", ["list", [["f", 1.5]]], [["decl", "x", "int", V("i")]]],
    ["emit", V("x")],
]


def g_scope(ctx):
    for n in range(1, ctx.pick(4, 5)):
        for seq in itertools.product(STM, repeat=n):
            if n == 4 and seq[0] == STM[-1]:
                continue
            for fin in (V("x"), V("y")) if n < 3 else (V("x"),):
                for ret in ("int", "float") if n < 3 else ("float",):
                    yield [[{"name": "C", "params": [], "ret": ret, "body": list(seq) + [["emit", fin]]}], {}]


def g_calls(ctx):
    atoms = [I(2), ["f", 2.5], ["b", True], ["list", [I(1)]], ["list", []]]
    ptypes = ["int", "float", "bool", LI, LF]
    H = lambda ps, ret, e: {"name": "h", "params": ps, "ret": ret, "body": [["emit", e]]}
    for t1, t2 in itertools.product(ptypes, repeat=2):
        for d in (None, I(1), ["f", 1.5], ["b", True], ["list", []], V("p")):
            h = H([["p", t1, None], ["q", t2, d]], t2, V("q"))
            calls = []
            for a in atoms:
                calls += [["call", "h", [a], {}], ["call", "h", [], {"p": a}], ["call", "h", [], {"q": a}]]
                for b in atoms if d in (None, I(1)) else atoms[:2]:
                    calls += [["call", "h", [a, b], {}], ["call", "h", [a], {"q": b}], ["call", "h", [], {"q": b, "p": a}], ["call", "h", [a], {"p": b}], ["call", "h", [a, b, a], {}], ["call", "h", [a], {"r": b}]]
            calls += [["call", "h", [], {}], ["call", "g", [I(1)], {}]]
            for c in calls:
                yield [[{"name": "C", "params": [], "ret": t2, "body": [["emit", c]]}, h], {}]
    for rt, e in itertools.product(ptypes, atoms):
        yield [[{"name": "C", "params": [], "ret": "int", "body": [["emit", I(1)]]}, H([], rt, e)], {}]


def g_pow(ctx):
    """A negative integer power is a fraction: typed int, it is the one listed finding."""
    for b, x in itertools.product(range(-3, 5), range(-4, 6)):
        e = ["bin", "**", I(b), I(x)]
        for t in ("int", "float"):
            if x >= 0 or t == "float" or (b, x) == (2, -1):
                yield [[{"name": "C", "params": [], "ret": t, "body": [["emit", e]]}], {}]


def judge(kind, case):
    cmds, params = case
    return Out(dslrun.compare(cmds, "C", params))


def run(ctx):
    ctx.assumptions = ["geometry-typed operators are not enumerated"]
    ctx.explore(judge, [("pow", g_pow(ctx)), ("calls", g_calls(ctx)), ("expr", g_expr(ctx)), ("scope", g_scope(ctx)), ("deep", g_deep(ctx))], batch=200)
