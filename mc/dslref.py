"""Reference semantics of the yapCAD DSL core: printer, type rules, evaluator.

Programs are JSON trees.

  expr  ["i",n] ["f",x] ["b",bool] ["s",str] ["v",name]
        ["bin",op,l,r] ["neg",e] ["not",e] ["if",cond,then,else]
        ["list",[e..]] ["idx",e,i] ["range",e..]
        ["comp",e,[[var,iter,[conds]]..]]
        ["call",name,[args],{named}]
  stmt  ["decl",name,type|None,e] ["let",name,type|None,e] ["set",name,e]
        ["emit",e] ["req",e,msg|None] ["pass"]
        ["if",cond,body,[[cond,body]..],else|None] ["for",var,e,body]
  type  "int" "float" "bool" "string" ["list",type]
  command {"name","params":[[name,type,default|None]],"ret":type,"body":[stmt]}
"""
import math

PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4,
        "+": 5, "-": 5, "*": 6, "/": 6, "//": 6, "%": 6, "**": 7}


# ---------------------------------------------------------------- printing
def tstr(t):
    if t is None:
        return None
    return t if isinstance(t, str) else "list<%s>" % tstr(t[1])


def pe(e):
    """Fully parenthesised source text of an expression."""
    k = e[0]
    if k == "i":
        return str(e[1]) if e[1] >= 0 else "(0 - %d)" % -e[1]
    if k == "f":
        return repr(float(e[1])) if e[1] >= 0 else "(0.0 - %r)" % -e[1]
    if k == "b":
        return "true" if e[1] else "false"
    if k == "s":
        return '"%s"' % e[1]
    if k == "v":
        return e[1]
    if k == "bin":
        return "(%s %s %s)" % (pe(e[2]), e[1], pe(e[3]))
    if k == "neg":
        return "(-%s)" % pe(e[1])
    if k == "not":
        return "(not %s)" % pe(e[1])
    if k == "if":
        return "(%s if %s else %s)" % (pe(e[2]), pe(e[1]), pe(e[3]))
    if k == "list":
        return "[%s]" % ", ".join(pe(x) for x in e[1])
    if k == "idx":
        return "%s[%s]" % (pe(e[1]), pe(e[2]))
    if k == "range":
        return "range(%s)" % ", ".join(pe(x) for x in e[1:])
    if k == "comp":
        s = pe(e[1])
        for var, it, conds in e[2]:
            s += " for %s in %s" % (var, pe(it)) + "".join(" if %s" % pe(c) for c in conds)
        return "[%s]" % s
    if k == "call":
        a = [pe(x) for x in e[2]] + ["%s=%s" % (n, pe(x)) for n, x in e[3].items()]
        return "%s(%s)" % (e[1], ", ".join(a))
    raise AssertionError(k)


def ps(s, ind):
    p = "    " * ind
    k = s[0]
    if k in ("decl", "let"):
        t = ": %s" % tstr(s[2]) if s[2] is not None else ""
        return ["%s%s%s%s = %s" % (p, "let " if k == "let" else "", s[1], t, pe(s[3]))]
    if k == "set":
        return ["%s%s = %s" % (p, s[1], pe(s[2]))]
    if k == "emit":
        return ["%semit %s" % (p, pe(s[1]))]
    if k == "req":
        return ["%srequire %s%s" % (p, pe(s[1]), ', "%s"' % s[2] if s[2] else "")]
    if k == "pass":
        return [p + "pass"]
    if k == "if":
        out = ["%sif %s:" % (p, pe(s[1]))] + pb(s[2], ind + 1)
        for c, b in s[3]:
            out += ["%selif %s:" % (p, pe(c))] + pb(b, ind + 1)
        if s[4] is not None:
            out += [p + "else:"] + pb(s[4], ind + 1)
        return out
    if k == "for":
        return ["%sfor %s in %s:" % (p, s[1], pe(s[2]))] + pb(s[3], ind + 1)
    raise AssertionError(k)


def pb(body, ind):
    return [l for s in body for l in ps(s, ind)]


def source(cmds):
    out = ["module m"]
    for c in cmds:
        ps_ = []
        for n, t, d in c["params"]:
            ps_.append("%s: %s%s" % (n, tstr(t), "" if d is None else " = " + pe(d)))
        out += ["", "command %s(%s) -> %s:" % (c["name"], ", ".join(ps_), tstr(c["ret"]))]
        out += pb(c["body"], 1)
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- typing
class TypeErr(Exception):
    pass


def tt(t):
    """type JSON -> hashable"""
    return t if isinstance(t, (str, tuple)) and not isinstance(t, list) else ("list", tt(t[1]))


NUM = ("int", "float")


def fits(target, t):
    if target == t or target == "?":
        return True
    if target == "float" and t == "int":
        return True
    if isinstance(target, tuple) and isinstance(t, tuple):
        return "?" in (t[1], target[1]) or fits(target[1], t[1])
    return False


def common(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if "?" in (a[1], b[1]):
            return b if a[1] == "?" else a
        c = common(a[1], b[1])
        return None if c is None else ("list", c)
    if fits(a, b):
        return a
    if fits(b, a):
        return b
    return None


class Checker:
    def __init__(self, cmds):
        self.cmds = {c["name"]: c for c in cmds}

    def module(self):
        for c in self.cmds.values():
            self.command(c)

    def command(self, c):
        env = [{}]
        for n, t, d in c["params"]:
            if n in env[0]:
                raise TypeErr("duplicate parameter")
            env[0][n] = tt(t)
            if d is not None and not fits(tt(t), self.expr(d, env)):
                raise TypeErr("default")
        self.ret = tt(c["ret"])
        self.block(c["body"], env)

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def lookup(self, n, env):
        for sc in reversed(env):
            if n in sc:
                return sc[n]
        return None

    def boolean(self, e, env):
        if self.expr(e, env) != "bool":
            raise TypeErr("condition")

    def stmt(self, s, env):
        k = s[0]
        if k in ("decl", "let"):
            t = self.expr(s[3], env)
            if s[2] is not None:
                if not fits(tt(s[2]), t):
                    raise TypeErr("decl")
                t = tt(s[2])
            if s[1] in env[-1]:
                raise TypeErr("redeclared")
            env[-1][s[1]] = t
        elif k == "set":
            t = self.expr(s[2], env)
            old = self.lookup(s[1], env)
            if old is None:
                env[-1][s[1]] = t
            elif not fits(old, t):
                raise TypeErr("assign")
        elif k == "emit":
            if not fits(self.ret, self.expr(s[1], env)):
                raise TypeErr("emit")
        elif k == "req":
            self.boolean(s[1], env)
        elif k == "if":
            self.boolean(s[1], env)
            self.block(s[2], env + [{}])
            for c, b in s[3]:
                self.boolean(c, env)
                self.block(b, env + [{}])
            if s[4] is not None:
                self.block(s[4], env + [{}])
        elif k == "for":
            t = self.expr(s[2], env)
            if not isinstance(t, tuple):
                raise TypeErr("iterate")
            self.block(s[3], env + [{s[1]: t[1]}])

    def expr(self, e, env):
        k = e[0]
        if k in "ifbs" and len(k) == 1:
            return {"i": "int", "f": "float", "b": "bool", "s": "string"}[k]
        if k == "v":
            t = self.lookup(e[1], env)
            if t is None:
                raise TypeErr("undefined " + e[1])
            return t
        if k == "bin":
            op, l, r = e[1], self.expr(e[2], env), self.expr(e[3], env)
            if op in ("==", "!="):
                return "bool"
            if op in ("and", "or"):
                if l != "bool" or r != "bool":
                    raise TypeErr(op)
                return "bool"
            if op in ("<", ">", "<=", ">="):
                if l not in NUM or r not in NUM:
                    raise TypeErr(op)
                return "bool"
            if l in NUM and r in NUM:
                if op == "//":
                    return "int"
                return "float" if "float" in (l, r) or op == "/" else "int"
            if op == "+" and isinstance(l, tuple) and isinstance(r, tuple):
                c = common(l[1], r[1])
                if c is not None:
                    return ("list", c)
            raise TypeErr(op)
        if k == "neg":
            t = self.expr(e[1], env)
            if t not in NUM:
                raise TypeErr("neg")
            return t
        if k == "not":
            self.boolean(e[1], env)
            return "bool"
        if k == "if":
            self.boolean(e[1], env)
            a, b = self.expr(e[2], env), self.expr(e[3], env)
            c = common(a, b)
            if c is None:
                raise TypeErr("branches")
            return c
        if k == "list":
            if not e[1]:
                return ("list", "?")
            t = self.expr(e[1][0], env)
            for x in e[1][1:]:
                t = common(t, self.expr(x, env))
                if t is None:
                    raise TypeErr("list")
            return ("list", t)
        if k == "idx":
            t, i = self.expr(e[1], env), self.expr(e[2], env)
            if i != "int" or not isinstance(t, tuple):
                raise TypeErr("index")
            return t[1]
        if k == "range":
            for x in e[1:]:
                if self.expr(x, env) != "int":
                    raise TypeErr("range")
            return ("list", "int")
        if k == "comp":
            sc = {}
            env = env + [sc]
            for var, it, conds in e[2]:
                t = self.expr(it, env)
                if not isinstance(t, tuple):
                    raise TypeErr("iterate")
                sc[var] = t[1]
                for c in conds:
                    self.boolean(c, env)
            return ("list", self.expr(e[1], env))
        if k == "call":
            if e[1] not in self.cmds:
                raise TypeErr("unknown " + e[1])
            c = self.cmds[e[1]]
            P = c["params"]
            if len(e[2]) > len(P):
                raise TypeErr("too many")
            given = {}
            for (n, t, d), a in zip(P, e[2]):
                given[n] = self.expr(a, env)
            for n, a in e[3].items():
                if n in given or all(n != p[0] for p in P):
                    raise TypeErr("named")
                given[n] = self.expr(a, env)
            for n, t, d in P:
                if n in given:
                    if not fits(tt(t), given[n]):
                        raise TypeErr("argument")
                elif d is None:
                    raise TypeErr("missing")
            return tt(c["ret"])
        raise AssertionError(k)


def well_typed(cmds):
    try:
        Checker(cmds).module()
        return True
    except TypeErr:
        return False


# ---------------------------------------------------------------- running
class RunErr(Exception):
    """The program fails at run time."""


class Emitted(Exception):
    def __init__(self, v):
        self.v = v


class Machine:
    def __init__(self, cmds, limit=100):
        self.cmds = {}
        for c in cmds:
            self.cmds.setdefault(c["name"], c)
        self.limit = limit
        self.depth = 0
        self.failed = []
        self.calls = 0

    def run(self, name, params):
        c = self.cmds[name]
        env = {}
        for n, t, d in c["params"]:
            if n in params:
                env[n] = params[n]
            elif d is not None:
                env[n] = self.expr(d, [env])
        v = self.body(c, env)
        return v, list(self.failed)

    def body(self, c, env):
        try:
            self.block(c["body"], [env])
        except Emitted as e:
            return e.v
        raise RunErr("no emit")

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = s[0]
        if k in ("decl", "let"):
            env[-1][s[1]] = self.expr(s[3], env)
        elif k == "set":
            v = self.expr(s[2], env)
            for sc in reversed(env):
                if s[1] in sc:
                    sc[s[1]] = v
                    return
            env[-1][s[1]] = v
        elif k == "emit":
            raise Emitted(self.expr(s[1], env))
        elif k == "req":
            if not self.expr(s[1], env):
                self.failed.append(s[2] or None)
        elif k == "if":
            if self.expr(s[1], env):
                return self.block(s[2], env + [{}])
            for c, b in s[3]:
                if self.expr(c, env):
                    return self.block(b, env + [{}])
            if s[4] is not None:
                self.block(s[4], env + [{}])
        elif k == "for":
            sc = {}
            for x in list(self.expr(s[2], env)):
                sc[s[1]] = x
                self.block(s[3], env + [sc])

    def expr(self, e, env):
        k = e[0]
        if k in ("i", "f", "b", "s"):
            return float(e[1]) if k == "f" else e[1]
        if k == "v":
            for sc in reversed(env):
                if e[1] in sc:
                    return sc[e[1]]
            raise RunErr("undefined")
        if k == "bin":
            op, l = e[1], self.expr(e[2], env)
            if op == "and":
                return bool(l) and bool(self.expr(e[3], env))
            if op == "or":
                return bool(l) or bool(self.expr(e[3], env))
            r = self.expr(e[3], env)
            try:
                if op == "**":
                    v = l ** r
                    if isinstance(v, complex):
                        raise RunErr("complex")
                    return v
                return {
                    "+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: l / r,
                    "//": lambda: int(l // r), "%": lambda: l % r, "==": lambda: l == r, "!=": lambda: l != r,
                    "<": lambda: l < r, ">": lambda: l > r, "<=": lambda: l <= r, ">=": lambda: l >= r,
                }[op]()
            except (ArithmeticError, ValueError) as x:
                raise RunErr(str(x))
        if k == "neg":
            return -self.expr(e[1], env)
        if k == "not":
            return not self.expr(e[1], env)
        if k == "if":
            return self.expr(e[2] if self.expr(e[1], env) else e[3], env)
        if k == "list":
            return [self.expr(x, env) for x in e[1]]
        if k == "idx":
            l, i = self.expr(e[1], env), self.expr(e[2], env)
            try:
                return l[i]
            except IndexError:
                raise RunErr("index")
        if k == "range":
            return list(range(*[self.expr(x, env) for x in e[1:]]))
        if k == "comp":
            if len(e[2]) > 4:
                raise RunErr("nesting")
            out = []
            self.clauses(e[1], e[2], env + [{}], out)
            return out
        if k == "call":
            return self.call(e, env)
        raise AssertionError(k)

    def clauses(self, el, cl, env, out):
        if not cl:
            if len(out) >= 100000:
                raise RunErr("size")
            out.append(self.expr(el, env))
            return
        var, it, conds = cl[0]
        for x in list(self.expr(it, env)):
            env[-1][var] = x
            if all(self.expr(c, env) for c in conds):
                self.clauses(el, cl[1:], env, out)

    def call(self, e, env):
        c = self.cmds[e[1]]
        pos = [self.expr(a, env) for a in e[2]]
        named = {n: self.expr(a, env) for n, a in e[3].items()}
        self.depth += 1
        self.calls += 1
        if self.depth > self.limit:
            raise RunErr("recursion")
        new = {}
        for (n, t, d), v in zip(c["params"], pos):
            new[n] = v
        new.update(named)
        seen = {}
        for n, t, d in c["params"]:
            if n not in new:
                new[n] = self.expr(d, [seen])
            seen[n] = new[n]
        v = self.body(c, dict(seen))
        self.depth -= 1
        return v


def same(a, b):
    """Equal values (bool is not a number, int and float compare by value)."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
            return True
        return a == b or (abs(a - b) <= 1e-12 * max(abs(a), abs(b)))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def has_type(v, t):
    t = tt(t)
    if isinstance(t, tuple):
        return isinstance(v, list) and all(has_type(x, t[1]) for x in v)
    if t == "int":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "float":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "bool":
        return isinstance(v, bool)
    if t == "string":
        return isinstance(v, str)
    return t == "?"
