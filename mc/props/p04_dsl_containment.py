"""P04: running a DSL program is bounded and contained."""
import itertools
import os

from mc import dslref as R
from mc import dslrun
from mc.core import Out, require

META = {
    "id": "P04",
    "title": "DSL runs are contained: limits hold and every failure is a result",
    "statement": "compile_and_run always returns a result for any source text, command name and parameter values: malformed text, unknown commands, missing or ill-typed parameters, faults in defaults or @meta hints and deep nesting give a failed result with a message and no value, never an escaping exception. Command recursion deeper than the limit (argument, environment or default 100) is refused, shallower recursion is not. Comprehensions of more than four clauses or more than 100000 elements are refused, smaller ones are not, and while loops are rejected before running.",
    "over": ["programs", "inputs"],
    "forall": "every token sequence up to length 3 (thorough 4) as a command body and as a module, every recursion limit 0-6 with depth 0-8 on 1-3 mutually recursive commands, every comprehension shape around the limits, every parameter value of the alphabet for every scalar and list type",
    "why": "Containment is about all inputs, and limits fail at their boundary; tests check one input on each side.",
    "files": ["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/parser.py", "src/yapcad/dsl/lexer.py"],
    "mech": [["result containment", "dsl/runtime/interpreter.py:compile_and_run"], ["recursion limit", "dsl/runtime/interpreter.py:Interpreter._call_command"], ["comprehension limits", "dsl/runtime/interpreter.py:Interpreter._eval_list_comprehension"]],
    "technique": "bounded exhaustive enumeration of token sequences, limits and parameter values on the real compiler, compared with a reference for what must succeed",
    "note": "about 56k runs quick; thorough enumerates bodies of 4 tokens (about 1.9M)",
}

TOK = ["1", "x", "p", "(", ")", "[", "]", ",", "=", ":", "+", "-", "if", "else", "for", "in", "emit", "require", "let", "\n    ", "\n        ", "\n", "range", "int", '"s"', "not", ".", "@", "module", "command", "->", "{", "}", "while", "return", "match", ";"]


def g_tokens(ctx):
    for n in range(0, ctx.pick(4, 5)):
        for seq in itertools.product(TOK, repeat=n):
            yield ["body", list(seq)]
    for n in range(0, ctx.pick(3, 4)):
        for seq in itertools.product(TOK, repeat=n):
            yield ["module", list(seq)]
            yield ["tail", list(seq)]
    for name in ("", "D", "box", "c", "C ", "m"):
        yield ["name", [name]]


def judge_tokens(case):
    mode, seq = case
    t = " ".join(seq)
    name = "C"
    if mode == "body":
        src = "module m\n\ncommand C(p: int = 3) -> int:\n    %s\n" % t
    elif mode == "module":
        src = t
    elif mode == "tail":
        src = "module m\n\ncommand C(p: int = 3) -> int:\n    emit p\n" + t
    else:
        src, name = "module m\n\ncommand C(p: int = 3) -> int:\n    emit p\n", seq[0]
    res = dslrun.real(src, name, {}, None)
    require(isinstance(res.success, bool), "no verdict")
    if not res.success:
        require(res.error_message or res.require_failures, "%r failed without saying why" % src)
        require(res.emit_result is None or res.require_failures, "%r failed but has a value" % src)
        return Out((res.error_message or "contract").split(":")[0][:14])
    require(mode in ("body", "tail") and res.emit_result is not None, "%r succeeded without a value" % src)
    require(not ("while" in seq), "a while loop was accepted: %r" % src)
    return Out("ran")


# ---------------------------------------------------------------- recursion
x = ["v", "x"]
I = lambda n: ["i", n]


def ring(k, ret=0):
    """k commands, each calling the next with x - 1 until x <= 0."""
    names = ["C", "f", "g"][:k]
    down = lambda n: ["call", n, [["bin", "-", x, I(1)]], {}]
    return [
        {"name": n, "params": [["x", "int", None]], "ret": "int", "body": [["if", ["bin", "<=", x, I(0)], [["emit", I(ret)]], [], None], ["emit", ["bin", "+", I(1), down(names[(j + 1) % k])]]]}
        for j, n in enumerate(names)
    ]


def wide():
    """Two calls side by side at each level: depth, not the number of calls, is limited."""
    c = ["call", "C", [["bin", "-", x, I(1)]], {}]
    return [{"name": "C", "params": [["x", "int", None]], "ret": "int", "body": [["if", ["bin", "<=", x, I(0)], [["emit", I(1)]], [], None], ["emit", ["bin", "+", c, c]]]}]


def looped():
    c = ["call", "f", [["v", "i"]], {}]
    f = ring(2)[1]
    f = {"name": "f", "params": [["x", "int", None]], "ret": "int", "body": [["emit", ["bin", "*", x, I(2)]]]}
    return [{"name": "C", "params": [["x", "int", None]], "ret": "int", "body": [["decl", "s", "int", I(0)], ["for", "i", ["range", x], [["set", "s", ["bin", "+", ["v", "s"], c]]]], ["emit", ["v", "s"]]]}, f]


def caught():
    """A helper that fails on its contract does not leave the depth raised."""
    h = {"name": "f", "params": [["x", "int", None]], "ret": "int", "body": [["req", ["bin", ">", x, I(1)], "deep"], ["emit", x]]}
    c = lambda n: ["call", "f", [I(n)], {}]
    return [{"name": "C", "params": [["x", "int", None]], "ret": "int", "body": [["decl", "s", "int", ["bin", "+", c(0), c(1)]], ["emit", ["bin", "+", ["v", "s"], ["bin", "+", c(2), c(3)]]]]}, h]


PROGS = {"ring1": lambda: ring(1), "ring2": lambda: ring(2), "ring3": lambda: ring(3), "wide": wide, "looped": looped, "caught": caught}


def g_depth(ctx):
    for p in PROGS:
        for lim in range(0, 7):
            for n in range(0, 9):
                for how in ("arg", "env"):
                    yield [p, lim, n, how]
        for n in (97, 98, 99, 100, 101, 102):
            if p != "wide":
                yield [p, None, n, "default"]
                yield [p, None, n, "badenv"]
                yield [p, 101, n, "argenv"]


def judge_depth(case):
    p, lim, n, how = case
    cmds = PROGS[p]()
    old = os.environ.pop("YAPCAD_DSL_RECURSION_LIMIT", None)
    try:
        if how in ("env", "argenv"):
            os.environ["YAPCAD_DSL_RECURSION_LIMIT"] = str(lim if how == "env" else 5)
        if how == "badenv":
            os.environ["YAPCAD_DSL_RECURSION_LIMIT"] = "many"
        eff = lim if lim is not None else 100
        arg = lim if how in ("arg", "argenv") else None
        src = R.source(cmds)
        res = dslrun.real(src, "C", {"x": n}, arg)
        m = R.Machine(cmds, eff)
        try:
            want, failed = m.run("C", {"x": n})
        except R.RunErr:
            require(not res.success and res.emit_result is None, "%s(%d) exceeds the limit %d but gave %r" % (p, n, eff, res.geometry))
            require("ecursion" in (res.error_message or ""), "limit failure reported as %r" % res.error_message)
            return Out("refused")
        require(not res.error_message and res.success == (not failed) and res.geometry == want, "%s(%d) within the limit %d gave %r (%s)" % (p, n, eff, res.geometry, res.error_message))
        return Out("ran")
    finally:
        os.environ.pop("YAPCAD_DSL_RECURSION_LIMIT", None)
        if old is not None:
            os.environ["YAPCAD_DSL_RECURSION_LIMIT"] = old


# ---------------------------------------------------------------- sizes
def g_size(ctx):
    for k in range(1, 8):
        for n in (0, 1, 2):
            for cond in (0, 1):
                yield ["clauses", k, n, cond]
    for dims in ([99999], [100000], [100001], [100, 1000], [101, 991], [317, 316], [10, 10, 1000], [10, 10, 1001], [10, 10, 10, 100], [11, 10, 10, 91], [1, 100001], [100001, 1], [199999, "half"], [200000, "half"], [200002, "half"]):
        yield ["size", dims, 0, 0]
    for n in (200, 300, 317, 400):
        yield ["nested", n, 0, 0]
    for depth in (5, 40, 80):
        for w in ("(", "[", "-", "not ", "if"):
            yield ["deep", depth, w, 0]
    for depth in (300, 3000, 30000):
        for w in ("(", "[", "-", "not ", "1+", "if", "f("):
            yield ["toodeep", depth, w, 0]


def deep(depth, w):
    if w == "(":
        return "int", "(" * depth + "7" + ")" * depth, 7
    if w == "[":
        return "int", "[" * depth + "7" + "]" * depth + "[0]" * depth, 7
    if w == "-":
        return "int", "-" * depth + "7", 7 if depth % 2 == 0 else -7
    if w == "not ":
        return "bool", "not " * depth + "true", depth % 2 == 0
    if w == "1+":
        return "int", "1+" * depth + "1", depth + 1
    if w == "f(":
        return "int", "abs(" * depth + "1" + ")" * depth, 1
    return "int", "1 if true else " * depth + "7", 1


def judge_size(case):
    what, a, b, c = case
    if what == "clauses":
        vs = "abcdefgh"[:a]
        cl = " ".join("for %s in range(%d)%s" % (v, b, " if %s < 1" % v if c else "") for v in vs)
        src = "module m\n\ncommand C() -> int:\n    emit len([0 %s])\n" % cl
        res = dslrun.real(src, "C", {}, None)
        if a > 4:
            require(not res.success and res.emit_result is None, "%d for clauses were accepted" % a)
            return Out("refused")
        want = min(b, 1) if c else b ** a
        require(res.success and res.geometry == want, "%d clauses over range(%d): %r (%s)" % (a, b, res.geometry, res.error_message))
        return Out("ran")
    if what == "size":
        half = a[-1] == "half"
        dims = a[:1] if half else a
        cl = " ".join("for v%d in range(%d)" % (k, n) for k, n in enumerate(dims)) + (" if v0 % 2 == 1" if half else "")
        src = "module m\n\ncommand C() -> int:\n    emit len([v0 %s])\n" % cl
        n = 1
        for d in dims:
            n *= d
        if half:
            n //= 2
        res = dslrun.real(src, "C", {}, None)
        if n > 100000:
            require(not res.success and res.emit_result is None, "a comprehension of %d elements was accepted" % n)
            return Out("refused")
        require(res.success and res.geometry == n, "a comprehension of %d elements gave %r (%s)" % (n, res.geometry, res.error_message))
        return Out("ran")
    if what == "nested":
        # each comprehension is within the limit on its own
        src = "module m\n\ncommand C() -> int:\n    emit len([len([w for w in range(%d)]) for v in range(%d)])\n" % (a, a)
        res = dslrun.real(src, "C", {}, None)
        require(res.success and res.geometry == a, "nested comprehensions of %d gave %r (%s)" % (a, res.geometry, res.error_message))
        return Out("ran")
    t, e, want = deep(a, b)
    src = "module m\n\ncommand C() -> %s:\n    emit %s\n" % (t, e)
    res = dslrun.real(src, "C", {}, None)
    if what == "deep":
        require(res.success and res.geometry == want, "%r nested %d deep gave %r (%s)" % (b, a, res.geometry, res.error_message))
        return Out("ran")
    if res.success:
        require(res.geometry == want, "%r nested %d deep gave %r" % (b, a, res.geometry))
        return Out("ran")
    require(res.error_message and res.emit_result is None, "%r nested %d deep failed silently" % (b, a))
    return Out("refused")


# ---------------------------------------------------------------- parameters
VALS = [0, 1, -3, 10 ** 30, 1.0, 2.5, float("inf"), float("nan"), True, False, None, "", "1", "abc", [], [1], [1, 2.5], [True], ["a"], [[1]], [[1], []], {}, {"a": 1}]
TYP = ["int", "float", "bool", "string", ["list", "int"], ["list", "float"], ["list", ["list", "int"]]]


def fits(t, v):
    if isinstance(t, list):
        return isinstance(v, list) and all(fits(t[1], e) for e in v)
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    return {"int": num and (isinstance(v, int) or float(v).is_integer()), "float": num, "bool": isinstance(v, bool), "string": isinstance(v, str)}[t]


def g_params(ctx):
    for t in range(len(TYP)):
        for v in range(len(VALS)):
            for use in range(3):
                yield [t, v, use]
        yield [t, None, 0]
        yield [t, None, 1]


def judge_params(case):
    t, v, use = case
    ty = R.tstr(TYP[t])
    if use == 2:
        src = "module m\n\ncommand C(q: %s = h(), p: %s) -> int:\n    emit 5\n\ncommand h() -> %s:\n    require 1 > 2, \"default\"\n    emit %s\n" % (ty, ty, ty, {"int": "1", "float": "1.5", "bool": "true", "string": '"s"'}.get(ty, "[]"))
    else:
        src = "module m\n\ncommand C(p: %s) -> %s:\n    emit %s\n" % (ty, ty if use == 0 else "int", "p" if use == 0 else "5")
    params = {} if v is None else {"p": VALS[v]}
    res = dslrun.real(src, "C", params, None)
    if v is None or not fits(TYP[t], VALS[v]):
        require(not res.success and res.emit_result is None, "%s parameter given %r: the run gave %r" % (ty, params, res.geometry))
        require("'p" in (res.error_message or ""), "a bad parameter was reported as %r" % res.error_message)
        return Out("refused")
    if use == 2:
        require(not res.success and [f.message for f in res.require_failures] == ["default"], "a contract broken in a default's helper was lost: %r" % res.require_failures)
        return Out("contract")
    want = VALS[v] if use == 0 else 5
    require(res.success and R.same(res.geometry, want), "%s parameter given %r: got %r (%s)" % (ty, VALS[v], res.geometry, res.error_message))
    if use == 0 and not isinstance(VALS[v], float):
        require(R.has_type(res.geometry, TYP[t]), "%s parameter given %r: emits %r" % (ty, VALS[v], res.geometry))
    return Out("ran")


FAULTS = [
    ("command C(p: int = 1 // 0) -> int:\n    emit p\n", "division"),
    ("command C(p: int = [1][3]) -> int:\n    emit p\n", "index"),
    ("command C(p: int = C()) -> int:\n    emit p\n", "recursion"),
    ("command C(p: float = sqrt(0.0 - 1.0)) -> float:\n    emit p\n", "domain"),
    ("command C() -> float:\n    emit 10.0 ** 1000.0\n", "overflow"),
    ("command C() -> float:\n    emit (0.0 - 8.0) ** 0.5\n", "complex"),
    ("command C() -> int:\n    x: int = 1\n", "no emit"),
    ("command C() -> solid:\n    emit box(0.0 - 1.0, 1.0, 1.0)\n", "box"),
    ("@meta(operation.kind=\"bogus\")\ncommand C() -> solid:\n    emit box(1.0, 1.0, 1.0)\n", "meta kind"),
    ("@meta(operation.priority=\"bogus\")\ncommand C() -> solid:\n    emit box(1.0, 1.0, 1.0)\n", "meta priority"),
    ("@meta(assembly.joint_kind=\"bogus\")\ncommand C() -> solid:\n    emit box(1.0, 1.0, 1.0)\n", "meta joint"),
    ("@meta(operation.kind=\"bogus\")\ncommand h() -> solid:\n    emit box(1.0, 1.0, 1.0)\n\ncommand C() -> solid:\n    emit h()\n", "meta helper"),
    ("command C() -> int:\n    while true:\n        pass\n    emit 1\n", "while"),
    ("command C() -> int:\n    return 1\n", "return"),
]


def g_faults(ctx):
    for k in range(len(FAULTS)):
        yield [k]


def judge_faults(case):
    (k,) = case
    src, why = FAULTS[k]
    res = dslrun.real("module m\n\n" + src, "C", {}, None)
    if not (why == "box" and res.success):
        require(not res.success and res.emit_result is None and res.error_message, "%s: %r" % (why, res))
    return Out(why)


# ---------------------------------------------------------------- one interpreter, many runs
REUSE = """module m

command D(n: int) -> int:
    emit D(n + 1)

command A(n: int) -> int:
    emit B(n)

command B(n: int) -> int:
    r: int = 10 // n
    emit r

command K(n: int) -> int:
    require n > 2, "k"
    k: int = B(n)
    emit k

command G(n: int, q: int = B(0)) -> int:
    emit n + q
"""
RUNS = [("D", 1), ("A", 0), ("A", 5), ("K", 1), ("K", 5), ("G", 1), ("Z", 1), ("B", 2)]


def g_reuse(ctx):
    for lim in (1, 2, 3):
        for d in range(1, ctx.pick(4, 6)):
            for seq in itertools.product(range(len(RUNS)), repeat=d):
                yield [lim, list(seq)]


def judge_reuse(case):
    """The outcome of a run does not depend on the runs before it."""
    from yapcad.dsl import parse, tokenize
    from yapcad.dsl.runtime.interpreter import Interpreter

    lim, seq = case
    mod = parse(tokenize(REUSE))
    it = Interpreter(recursion_limit=lim)
    want = {("A", 5): 2, ("K", 5): 2, ("B", 2): 5}
    for k in seq:
        cmd, n = RUNS[k]
        res = it.execute(mod, cmd, {"n": n})
        w = want.get((cmd, n))
        if w is not None:
            require(res.success and res.geometry == w and not res.require_failures, "%s(%d) after %r gave %r (%s)" % (cmd, n, seq, res.geometry, res.error_message))
        else:
            require(not res.success and (cmd == "K" or res.emit_result is None), "%s(%d) after %r succeeded with %r" % (cmd, n, seq, res.geometry))
            require([f.message for f in res.require_failures] == (["k"] if cmd == "K" else []), "%s(%d) after %r: contracts %r" % (cmd, n, seq, res.require_failures))
    return Out("d%d" % len(seq))


def judge(kind, case):
    return {"tokens": judge_tokens, "depth": judge_depth, "size": judge_size, "params": judge_params, "faults": judge_faults, "reuse": judge_reuse}[kind](case)


def run(ctx):
    ctx.assumptions = ["integer powers can be made arbitrarily large by a program and are not bounded by the DSL", "the recursion limit asked for stays below what the Python stack allows"]
    ctx.explore(judge, [("size", g_size(ctx), 1), ("faults", g_faults(ctx)), ("params", g_params(ctx)), ("reuse", g_reuse(ctx)), ("depth", g_depth(ctx)), ("tokens", g_tokens(ctx))], batch=200)
