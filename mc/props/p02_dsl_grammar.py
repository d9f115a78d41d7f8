"""P02: program text means what its grammar and layout say."""
import itertools

from mc import dslref as R
from mc import dslrun
from mc.core import Out, require

META = {
    "id": "P02",
    "title": "DSL text is read by one grammar: precedence, layout, comments, literals",
    "statement": "The text of a design program determines its meaning: binary operators group by the published precedence (or, and, equality, comparison, sum, product, right-associative power; unary minus and not bind tighter; the conditional binds loosest), and postfix calls and indexing bind tightest. Blank lines, trailing space, comments of either kind, line breaks inside brackets and the chosen indentation width never change what a program computes, while a dedent to a level that was never opened is refused. Integer, hexadecimal, binary, float and string literals denote the values written, escapes included.",
    "over": ["programs"],
    "forall": "every expression text of up to 3 binary operators with unary and conditional forms, every single (thorough: double) layout edit at every position of the base programs, every literal of the bounded alphabets",
    "why": "Precedence and layout bugs show only for particular operator or whitespace combinations; unit tests sample a handful of them.",
    "files": ["src/yapcad/dsl/lexer.py", "src/yapcad/dsl/parser.py", "src/yapcad/dsl/tokens.py"],
    "mech": [["precedence climbing", "dsl/parser.py:Parser._parse_binary_expr"], ["indentation tokens", "dsl/lexer.py:Lexer._handle_line_start"]],
    "technique": "bounded exhaustive enumeration of token sequences and layout edits, run on the real lexer, parser and interpreter, compared with an independent shunting-yard reading",
    "note": "about 135k texts quick; thorough adds pairs of layout edits and 4-operator expressions",
}

BIN = ["or", "and", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "//", "%", "**"]


# ---------------------------------------------------------------- expressions
def shunt(items):
    """items: operand, op, operand, ... -> tree, by precedence and associativity."""
    out, st = [], []

    def pop():
        r, l = out.pop(), out.pop()
        out.append(["bin", st.pop(), l, r])

    for k, it in enumerate(items):
        if k % 2 == 0:
            out.append(it)
            continue
        while st and (R.PREC[st[-1]] > R.PREC[it] or (R.PREC[st[-1]] == R.PREC[it] and it != "**")):
            pop()
        st.append(it)
    while st:
        pop()
    return out[0]


def text(e):
    return "true" if e == ["b", True] else "false" if e == ["b", False] else str(e[1])


def tree_of(operands, ops, un):
    items = []
    for k, e in enumerate(operands):
        for u in un[k]:
            e = ["neg", e] if u == "-" else ["not", e]
        items.append(e)
        if k < len(ops):
            items.append(ops[k])
    return shunt(items)


def text_of(operands, ops, un):
    s = []
    for k, e in enumerate(operands):
        s.append("".join({"-": "-", "n": "not "}[u] for u in reversed(un[k])) + text(e))
        if k < len(ops):
            s.append(ops[k])
    return " ".join(s)


INTS = {1: [(7,)], 2: [(7, 2), (2, 3)], 3: [(7, 2, 3), (2, 3, 2)], 4: [(2, 3, 2, 1), (3, 2, 1, 2)], 5: [(2, 3, 2, 1, 2)]}


def g_expr(ctx):
    for n in range(1, ctx.pick(4, 5)):
        for ops in itertools.product(BIN, repeat=n):
            if n == 4 and (len(set(ops)) < 3 or ops[0] in BIN[4:6] or ops.count("**") > 2):
                continue
            uns = [[""] * (n + 1)]
            if n <= 2:
                uns = [list(u) for u in itertools.product(["", "-", "n"], repeat=n + 1)]
            elif n == 3:
                uns += [[u if k == j else "" for k in range(4)] for j in range(4) for u in "-n"]
            for un in uns:
                for kinds in itertools.product("ib", repeat=n + 1):
                    shape = [["i", 1] if k == "i" else ["b", True] for k in kinds]
                    try:
                        t = R.Checker([]).expr(tree_of(shape, ops, un), [{}])
                    except R.TypeErr:
                        # keep the all-int and all-bool ill-typed readings
                        if len(set(kinds)) > 1 or n > 2:
                            continue
                        t = "int"
                    for ints in INTS[n + 1]:
                        for flip in (0, 1):
                            vals = [["i", v] if k == "i" else ["b", bool((j + flip) % 2)] for j, (v, k) in enumerate(zip(ints, kinds))]
                            if flip and "b" not in kinds:
                                continue
                            yield [text_of(vals, ops, un), tree_of(vals, ops, un), "float" if t == "int" else t]
    # parentheses override
    for o1, o2 in itertools.product(BIN, repeat=2):
        for va in itertools.product([["i", 7], ["b", True]], [["i", 2], ["b", False]], [["i", 3], ["b", True]]):
            a, b, c = va
            yield ["%s %s (%s %s %s)" % (text(a), o1, text(b), o2, text(c)), ["bin", o1, a, ["bin", o2, b, c]], None]
            yield ["(%s %s %s) %s %s" % (text(a), o1, text(b), o2, text(c)), ["bin", o2, ["bin", o1, a, b], c], None]
            yield ["-(%s %s %s) %s %s" % (text(a), o1, text(b), o2, text(c)), ["bin", o2, ["neg", ["bin", o1, a, b]], c], None]
            yield ["not (%s %s %s) %s %s" % (text(a), o1, text(b), o2, text(c)), ["bin", o2, ["not", ["bin", o1, a, b]], c], None]


def g_cond(ctx):
    I = lambda n: ["i", n]
    conds = [("true", ["b", True]), ("false", ["b", False]), ("1 < 2", ["bin", "<", I(1), I(2)]), ("not true", ["not", ["b", True]]), ("false or true", ["bin", "or", ["b", False], ["b", True]])]
    arms = [("1", I(1)), ("2 + 3", ["bin", "+", I(2), I(3)]), ("-4", ["neg", I(4)]), ("2 ** 2 - 1", ["bin", "-", ["bin", "**", I(2), I(2)], I(1)]), ("[5, 6][1]", ["idx", ["list", [I(5), I(6)]], I(1)]), ("idn(8)", ["call", "idn", [I(8)], {}])]
    for (ct, c), (at, a), (bt, b) in itertools.product(conds, arms, arms):
        one = ["if", c, a, b]
        s = "%s if %s else %s" % (at, ct, bt)
        yield [s, one, "int"]
        yield ["[%s, %s][1]" % (bt, s), ["idx", ["list", [b, one]], I(1)], "int"]
        yield ["idn(%s)" % s, ["call", "idn", [one], {}], "int"]
        yield ["idn(x=%s) + 1" % s, ["bin", "+", ["call", "idn", [], {"x": one}], I(1)], "int"]
        yield ["10 + (%s)" % s, ["bin", "+", I(10), one], "int"]
        yield ["10 * %s" % s, ["if", c, ["bin", "*", I(10), a], b], "int"] if at in ("1", "-4", "[5, 6][1]", "idn(8)") else [s, one, "int"]
        yield ["%s + 10" % s, ["if", c, a, ["bin", "+", b, I(10)]], "int"]
        for ct2, c2 in conds[:3]:
            yield ["%s if %s else %s if %s else 9" % (at, ct, bt, ct2), ["if", c, a, ["if", c2, b, I(9)]], "int"]
            yield ["%s if (%s if %s else %s) else %s" % (at, ct, ct2, "false", bt), ["if", ["if", c2, c, ["b", False]], a, b], "int"]
            yield ["[w + (%s) for w in [1, 2] if %s]" % (at, ct2), ["comp", ["bin", "+", ["v", "w"], a], [["w", ["list", [I(1), I(2)]], [c2]]]], ["list", "int"]]
            yield ["[%s for w in [1, 2] if %s if %s]" % (s, ct2, ct), ["comp", one, [["w", ["list", [I(1), I(2)]], [c2, c]]]], ["list", "int"]]
    # postfix binds tighter than unary and power
    L = ["list", [I(3), I(4)]]
    LL = ["list", [L, ["list", [I(5)]]]]
    lt, llt = "[3, 4]", "[[3, 4], [5]]"
    for pre, wrap in (("", lambda e: e), ("-", lambda e: ["neg", e])):
        for post, w2 in (("", lambda e: e), (" ** 2", lambda e: ["bin", "**", e, I(2)]), (" // 2", lambda e: ["bin", "//", e, I(2)])):
            for k in (0, 1, -1):
                yield ["%s%s[%d]%s" % (pre, lt, k, post), w2(wrap(["idx", L, I(k)])), "int"]
                yield ["%s%s[0][%d]%s" % (pre, llt, k, post), w2(wrap(["idx", ["idx", LL, I(0)], I(k)])), "int"]
                yield ["%sidn(%d)%s" % (pre, k + 2, post), w2(wrap(["call", "idn", [I(k + 2)], {}])), "int"]
                yield ["%sidl(%s)[%d]%s" % (pre, lt, k, post), w2(wrap(["idx", ["call", "idl", [L], {}], I(k)])), "int"]
                yield ["%s%s[1 %s]%s" % (pre, lt, "- 1" if k else "* 0", post), w2(wrap(["idx", L, I(0)])), "int"]


HELP = """
command idn(x: int) -> int:
    emit x

command idl(x: list<int>) -> list<int>:
    emit x
"""
HELPC = [
    {"name": "idn", "params": [["x", "int", None]], "ret": "int", "body": [["emit", ["v", "x"]]]},
    {"name": "idl", "params": [["x", ["list", "int"], None]], "ret": ["list", "int"], "body": [["emit", ["v", "x"]]]},
]


def judge_expr(case):
    txt, tree, t = case
    if t is None:
        try:
            t = R.Checker([]).expr(tree, [{}])
            t = "float" if t == "int" else t
        except R.TypeErr:
            t = "int"
    src = "module m\n\ncommand C() -> %s:\n    emit %s\n%s" % (R.tstr(t) if not isinstance(t, tuple) else t, txt, HELP)
    cmds = [{"name": "C", "params": [], "ret": t, "body": [["emit", tree]]}] + HELPC
    res = dslrun.real(src, "C", {}, None)
    if not R.well_typed(cmds):
        require(not res.success and res.emit_result is None, "%r is ill-typed as the grammar groups it but gave %r" % (txt, res.geometry))
        return Out("rejected")
    try:
        want, _ = R.Machine(cmds).run("C", {})
    except R.RunErr:
        require(not res.success and res.emit_result is None, "%r should fail but gave %r" % (txt, res.geometry))
        return Out("runerr")
    require(res.success, "%r was refused: %s" % (txt, res.error_message))
    require(R.same(res.geometry, want), "%r gave %r, the grammar's grouping gives %r" % (txt, res.geometry, want))
    return Out(type(want).__name__)


# ---------------------------------------------------------------- layout
# (level, tokens); a token is separated from the next by one space
BASE = [
    ([(0, "module m"), (0, "command C ( p : int = 2 , q : int = 1 ) -> int :"), (1, "a : int = p"), (1, "if a > 1 :"), (2, "a = a + q"), (2, "for i in [ 1 , 2 ] :"), (3, "a = a * i"), (2, "a = a + 1"), (1, "elif a == 0 :"), (2, "a = h ( 5 , y = ( 2 + 1 ) )"), (1, "else :"), (2, "a = 0 - 1"), (1, "emit a"),
      (0, "command h ( x : int , y : int = 3 ) -> int :"), (1, "require x > 1 , \"big\""), (1, "emit x * 10 + y")],
     [({"p": 3, "q": 4}, 15), ({"p": 0}, 53), ({"p": 1}, -1)]),
    ([(0, "module m"), (0, "command C ( ) -> list<int> :"), (1, "let t : list<int> = [ 4 , 5 , 6 ]"), (1, "for i in range ( 2 ) :"), (2, "for j in range ( 2 ) :"), (3, "if i == j :"), (4, "t = t + [ i ]"), (2, "pass"), (1, "u = [ x + 1 for x in t if x > 0 ]"), (1, "emit u")],
     [({}, [5, 6, 7, 2])]),
]
INDENTS = ["    ", " ", "  ", "   ", "        ", "\t"]


def render(lines, ind="    ", line_ins=None, tok_ins=None, end="\n", widths=None):
    """Text with inserted material.  line_ins {line: text before it}; tok_ins {(line, gap): text}."""
    out = []
    for k, (lev, toks) in enumerate(lines):
        if line_ins and k in line_ins:
            out.append(line_ins[k])
        parts = toks.split(" ")
        pad = "".join(widths[:lev]) if widths else ind * lev
        s = ""
        for g, t in enumerate(parts):
            if g:
                s += (tok_ins or {}).get((k, g), " ")
            s += t
        s += (tok_ins or {}).get((k, len(parts)), "")
        s = (tok_ins or {}).get((k, 0), "") + s
        out.append(pad + s)
    if line_ins and len(lines) in line_ins:
        out.append(line_ins[len(lines)])
    return "\n".join(out) + end


def depths(toks):
    """Bracket depth before each token gap."""
    d, out = 0, [0]
    for t in toks.split(" "):
        d += t.count("(") + t.count("[") - t.count(")") - t.count("]")
        out.append(d)
    return out


LINE_INS = ["", "   ", "\t", "# c", "  # if x:", "        # deep", "/* c */", "      /* if y : */", "/* a\n  b: */", "  /* a\n\n\n# z */", "/* a /* n */ b */", "/* x */ # y", "\n\n", "            /* u */ /* v */"]
TOK_INS = ["  ", "\t", " /* c */ ", "/* c */", " /* a\n b */ ", " /* a\n   */", "   /* : ( [ */ "]
BR_INS = ["\n", " \n  ", " # c (\n", "\n\n        ", " # c\n# d\n  ", "\n /* x */ "]
END_INS = [" ", "\t ", " # c", "# c:", " /* c */", " /* c */ # d", "   /* a\n  b */", "  # \" ("]


def edits(lines):
    for k in range(len(lines) + 1):
        for t in LINE_INS:
            yield ["L", k, t]
    for k, (lev, toks) in enumerate(lines):
        dp = depths(toks)
        n = len(toks.split(" "))
        yield ["T", k, 0, "/* c */ "]
        yield ["T", k, 0, "/* c *//* d */"]
        for g in range(1, n):
            for t in TOK_INS + (BR_INS if dp[g] > 0 else []):
                yield ["T", k, g, t]
        for t in END_INS:
            yield ["T", k, n, t]


def apply(lines, es, **kw):
    li, ti = {}, {}
    for e in es:
        if e[0] == "L":
            li[e[1]] = (li[e[1]] + "\n" if e[1] in li else "") + e[2]
        else:
            ti[(e[1], e[2])] = e[3]
    return render(lines, line_ins=li, tok_ins=ti, **kw)


def g_layout(ctx):
    for b, (lines, runs) in enumerate(BASE):
        for r in range(len(runs)):
            for end in ("\n", "", "\n\n", "\n    ", "  ", "\n# x", "\n    # x", " # x", "\n/* x */", "\n\t\n"):
                for ind in range(len(INDENTS)):
                    yield [b, r, [], ind, None, end]
        for e in edits(lines):
            for ind in (0, 2, 5):
                yield [b, 0, [e], ind, None, "\n"]
        # a block may use any width of its own
        for ws in itertools.product((1, 2, 4, 7), repeat=4):
            yield [b, 0, [], 0, [" " * w for w in ws], "\n"]
        es = list(edits(lines))
        if not ctx.thorough:
            es = [e for e in es if e[0] == "L" and e[1] in (3, 5, 6, 8) or e[0] == "T" and e[1] in (5, 9, 8) and e[2] in (0, 3, 4)]
        for i, e in enumerate(es):
            for f in es[i + 1 :]:
                if e[:3] != f[:3] or e[0] == "L":
                    yield [b, 0, [e, f], 0, None, "\n"]


def g_ladder(ctx):
    """Blocks nested up to ten deep, left at once to any outer level, twice."""
    for n in range(1, ctx.pick(9, 13)):
        for k1 in range(0, n + 1):
            for n2 in range(k1, n + 1):
                for k2 in (0, n2):
                    for form in range(3):
                        for ins in ("", "# c", "      # deep", "/* c */"):
                            yield [n, k1, n2, k2, form, ins]


def judge_ladder(case):
    """One statement per level; the value says at which levels each ran."""
    n, k1, n2, k2, form, ins = case
    head = ["if p > 0 :", "for v%d in [ 0 ] :", "if p > 0 :"]
    L = ["module m", "command C(p: int) -> int:", "    r: int = 0"]

    def opened(a, b):
        for d in range(a, b):
            t = head[(form + d) % 3 if form else 0]
            L.append("    " * (d + 1) + (t % d if "%" in t else t))

    opened(0, n)
    L.append("    " * (n + 1) + "r = r + 1")
    if ins:
        L.append(ins)
    L.append("    " * (k1 + 1) + "r = r * 10 + 2")
    opened(k1, n2)
    L.append("    " * (n2 + 1) + "r = r * 10 + 3")
    L.append("    " * (k2 + 1) + "r = r * 10 + 4")
    L.append("    emit r")
    src = "\n".join(L) + "\n"
    for p in (1, 0):
        # with p = 0 the if levels are not entered
        isif = lambda d: form == 0 or (form + d) % 3 != 1
        runs = lambda lev: p > 0 or not any(isif(d) for d in range(lev))
        want = 0
        for lev, v in ((n, 1), (k1, 2), (n2, 3), (k2, 4)):
            if runs(lev):
                want = want + 1 if v == 1 else want * 10 + v
        res = dslrun.real(src, "C", {"p": p}, None)
        require(res.success and res.geometry == want, "nested blocks: got %r (%s), want %r\n%s" % (res.geometry, res.error_message, want, src))
    return Out("n%d" % n)


def g_bad(ctx):
    """Lines moved to an indentation that was never opened."""
    for b, (lines, runs) in enumerate(BASE):
        for k, (lev, toks) in enumerate(lines):
            if lev == 0:
                continue
            prev = lines[k - 1][0]
            for w in range(0, 20):
                yield [b, k, w]


def bad_expect(lines, k, w):
    """None if the shifted text is still well laid out, else True (must be refused)."""
    stack = [0]
    opened = False
    for j, (lev, toks) in enumerate(lines):
        cur = w if j == k else 4 * lev
        if opened:
            if cur <= stack[-1]:
                return True
            stack.append(cur)
        else:
            if cur > stack[-1]:
                return True
            while stack[-1] > cur:
                stack.pop()
            if stack[-1] != cur:
                return True
        opened = toks.endswith(":")
    return None


def judge_layout(case):
    b, r, es, ind, widths, end = case
    lines, runs = BASE[b]
    params, want = runs[r]
    src = apply(lines, es, ind=INDENTS[ind], widths=widths, end=end)
    res = dslrun.real(src, "C", params, None)
    require(res.success and R.same(res.geometry, want), "layout changed the program: got %r (%s), want %r\n%s" % (res.geometry, res.error_message, want, src))
    return Out("same")


def judge_bad(case):
    b, k, w = case
    lines, runs = BASE[b]
    if bad_expect(lines, k, w) is None:
        return Out("well laid out")
    src = "\n".join(" " * (w if j == k else 4 * lev) + t for j, (lev, t) in enumerate(lines)) + "\n"
    res = dslrun.real(src, "C", runs[0][0], None)
    require(not res.success and res.emit_result is None and res.error_message, "a line at a level that was never opened was accepted (%r)\n%s" % (res.geometry, src))
    return Out("refused")


# ---------------------------------------------------------------- literals
ESC = {"\\n": "\n", "\\t": "\t", "\\r": "\r", "\\\\": "\\", '\\"': '"', "\\'": "'", "\\0": "\0", "\\x41": "A", "\\xe9": "\xe9", "\\u0042": "B", "\\u20AC": "\u20ac"}


def g_literals(ctx):
    digs = "0123456789abcdefABCDEF"
    for d in digs:
        yield ["int", "0x" + d, int(d, 16)]
        for e in digs:
            yield ["int", "0X%s%s" % (d, e), int(d + e, 16)]
            yield ["int", "0x%s_%s" % (d, e), int(d + e, 16)]
            yield ["string", '"\\x%s%s"' % (d, e), chr(int(d + e, 16))]
            yield ["string", '"\\u0%s2%sz"' % (d, e), chr(int("0%s2%s" % (d, e), 16)) + "z"]
    for n in range(1, 9):
        for bits in itertools.product("01", repeat=n):
            s = "".join(bits)
            yield ["int", "0b" + s, int(s, 2)]
            if n > 3:
                yield ["int", "0B%s_%s" % (s[:2], s[2:]), int(s, 2)]
    for n in range(1, 5):
        for ds in itertools.product("0179", repeat=n):
            s = "".join(ds)
            yield ["int", s, int(s)]
    for w, f, e in itertools.product(["0", "1", "10", "007", "123456"], ["", ".0", ".5", ".25", ".001", ".10"], ["", "e0", "e1", "E2", "e+3", "e-2", "E-10", "e12"]):
        if f or e:
            yield ["float", w + f + e, float(w + f + e)]
            yield ["float", "-" + w + f + e, -float(w + f + e)]
    # strings of up to 3 (4) characters or escapes, both quotes, single line and triple
    alpha = list(ESC) + ["a", " ", "#", "/*", "(", "{", "é"]
    for q in ('"', "'"):
        for n in range(0, ctx.pick(3, 4)):
            for parts in itertools.product(alpha, repeat=n):
                yield ["string", q + "".join(parts) + q, "".join(ESC.get(p, p) for p in parts)]
        other = "'" if q == '"' else '"'
        tri = alpha[:6] + ["\n", other, "a", "#", q + "a", "    "]
        for n in range(1, ctx.pick(4, 5)):
            for parts in itertools.product(tri, repeat=n):
                s = "".join(parts)
                if s.endswith(q) and not s.endswith("\\" + q):
                    continue
                yield ["string", q * 3 + s + q * 3, "".join(ESC.get(p, p) for p in parts)]
    for bad in ("0x", "0b", "0b2", "0xg", "1e", "1e+", "2.5e-", '"\\q"', '"\\xg1"', '"\\u12"', '"abc', "'abc", '"""abc', '"\\"', "'a\nb'", "/* open", "$", "!", "~1", "1 &", "^"):
        yield ["bad", bad, None]


USES = ["emit %s", "a: %T = %s\n    emit a", "emit [%s, %s][1]", "emit idt(%s)", "emit (%s\n   if true else %s)"]


def judge_lit(case):
    t, lit, want = case
    if t == "bad":
        for u in ("emit %s\n", "emit %s"):
            src = "module m\n\ncommand C() -> int:\n    " + u % lit
            res = dslrun.real(src, "C", {}, None)
            require(not res.success and res.emit_result is None and res.error_message, "malformed literal %r was accepted as %r" % (lit, res.geometry))
        return Out("refused")
    n = 0
    for u in USES:
        body = u.replace("%T", t).replace("%s", lit)
        src = "module m\n\ncommand C() -> %s:\n    %s\n\ncommand idt(x: %s) -> %s:\n    emit x\n" % (t, body, t, t)
        res = dslrun.real(src, "C", {}, None)
        require(res.success and res.geometry == want and type(res.geometry) is type(want), "literal %s denotes %r but the program gives %r (%s)\n%s" % (lit, want, res.geometry, res.error_message, src))
        n += 1
    return Out(t, steps=n)


def judge(kind, case):
    return {"expr": judge_expr, "cond": judge_expr, "layout": judge_layout, "bad": judge_bad, "ladder": judge_ladder, "literal": judge_lit}[kind](case)


def run(ctx):
    ctx.assumptions = ["line ends are \\n (files are read in text mode)", "negative exponents are compared as floats"]
    ctx.explore(judge, [("cond", g_cond(ctx)), ("bad", g_bad(ctx)), ("ladder", g_ladder(ctx)), ("literal", g_literals(ctx)), ("layout", g_layout(ctx)), ("expr", g_expr(ctx))], batch=200)
