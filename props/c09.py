"""C09 Names in expressions resolve by Python scoping over the context."""
import itertools
from props.common import load

BOUNDS = ("programs of a binding (28 forms) in a scope (10 forms), an expression (56 forms) in a position (9 forms) and reads after it, and two bindings "
          "in a row; each context variable, among them one with the name of a builtin, present or absent independently at each render; loops of 0..2 rounds; two renders in a row")
OUTSIDE = ("blocks and top level defs that refer to a variable of the template body around them (they are hoisted); global and nonlocal statements; names that "
           "start with __TK__; identifiers that Python normalizes; names that the code takes from locals(), eval() and the like")
ASSUMPTIONS = ["the reference is Python itself: the same program written as a module whose globals are the context"]

EXPRS = [
    "a", "b", "len", "len2",
    "(lambda a: a)('p')", "(lambda: a)()", "(lambda a=a: a)()", "(lambda *a: a)()", "(lambda **a: sorted(a))(k=1)", "(lambda *, a='k': a)()",
    "(lambda b, a=a: a)('q')", "(lambda a: (lambda: a)())('r')", "(lambda b: a)('s')", "(lambda a, /: a)('t')", "(lambda b=b: (lambda a: a)(b))()", "(lambda *, b=a: b)()",
    "[a for a in xs]", "[a for b in xs]", "[b for a in ps for b in a]", "[a for a in a]", "[b for b in xs if a]", "{a: b for a, b in ps}", "sorted({a for a in xs})",
    "list(a for a in xs)", "[[a for a in xs] for b in xs]", "[a for b in xs for a in [b]]", "[(lambda: c)() for c in xs]", "[b for (a, b) in ps]", "[b for a, *b in ps]",
    "[a for b in [a]]", "(lambda xs: [a for a in xs])([1])", "[c for a in xs for c in [x for x in [a]]]", "[a for a in xs] + [a]", "(lambda: [a for a in xs])()",
    "[(lambda a=a: a)() for b in xs]", "{b: a for b in xs}", "next((a for a in xs), a)",
    "(a := 'w')", "[a := c for c in xs]", "((a := 'w'), a)[1]", "(lambda: (a := 1))()",
    "None if True else a", "a if True else 0", "True or a", "False and a", "f'{a}'", "f'{(lambda a: a)(1)}{b}'", "f'{b!r:>{9}}'", "dict(a=1)['a']", "o.a", "o.a + b", "xs[:len(xs)]",
    "[*xs, a]", "sh(*xs[:1], **{})", "max([1, 2])", "{**{'k': a}}", "(a, b)[0]", "a == b", "not a", "[x.a for x in [o]]", "(lambda a: [a for b in xs])('u')",
]

# the code of <?python?>; binds a in most cases
BINDS = [
    None,
    "a = 'c'", "a, z = 'c', 1", "[a, *z] = 'cd'", "a += 'c'", "import math as a", "import math", "from math import floor as a", "for a in xs: pass", "def a(): return 'fn'", "class a: pass",
    "try:\n  raise ValueError('v')\nexcept ValueError as a:\n  pass", "try:\n  z = 1\nexcept ValueError as a:\n  pass", "with cm() as a: pass", "del a", "if cond: a = 'i'", "a: sh = 3", "a: sh",
    "class K:\n  a = 'k'", "def g():\n  a = 1", "z = lambda a: a", "z = [a for a in xs]", "match 'c':\n  case a: pass", "(a := 5)", "def g(a=a): return a\nz = g()",
    "def g(*, a='q'): return a\nz = g()", "async def a(): pass", "len = sh", "b = a", "a = b", "a = a", "def g(x: b): return x\nz = g(1)",
    "class K:\n  z = a", "class K(base):\n  a = 1", "def g():\n  return a\nz = g()", "def g():\n  return b\na = 'late'\nz = g()", "for z in xs:\n  a = z\nelse:\n  b = 'e'",
    "assert a", "a = [a for a in xs]", "z = [y for y in xs if (a := y)]", "import os.path as len", "type a = int",
]


class CM(object):
    def __enter__(self):
        return "cm"

    def __exit__(self, *a):
        pass


class O(object):
    a = "oa"


class Base(object):
    pass


def sh(v=None):
    if isinstance(v, (str, int, float)) or v is None:
        return str(v)
    if isinstance(v, dict):
        return "{" + "".join([sh(k) + ":" + sh(x) + "," for k, x in v.items()]) + "}"
    if isinstance(v, (list, tuple, set)):
        return type(v).__name__ + "[" + "".join([sh(x) + "," for x in v]) + "]"
    return "(" + type(v).__name__ + ")"


# scopes: (template with %s, reference with the lines of the body)
def ind(lines, n=1):
    return [("  " * n) + l for l in lines]


class Prog(object):
    """A program, as a template and as the Python reference."""

    def __init__(self):
        self.n = 0
        self.top = []       # hoisted definitions of the reference

    def read(self, expr, pos="text"):
        self.n += 1
        e = "sh(%s)" % expr
        if pos == "text":
            return "(${%s})" % e, ["out('(')", "out(%s)" % e, "out(')')"]
        if pos == "attr":
            return "<i k=\"-${%s}\"/>" % e, ["out('<i k=\"-')", "out(%s)" % e, "out('\"></i>')"]
        if pos == "boolattr":
            return "<i k=\"${%s}\"/>" % e, ["out('<i k=\"')", "out(%s)" % e, "out('\"></i>')"]
        if pos == "attrs":
            return "<i py:attrs=\"{'k': %s}\"/>" % e, ["out('<i k=\"')", "out(%s)" % e, "out('\"></i>')"]
        if pos == "content":
            return "<i py:content=\"%s\"/>" % e, ["out('<i>')", "out(%s)" % e, "out('</i>')"]
        if pos == "replace":
            return "<py:replace value=\"%s\"/>" % e, ["out(%s)" % e]
        if pos == "if":
            return "<py:if test=\"%s\">y</py:if>" % expr, ["if %s:" % expr, "  out('y')"]
        if pos == "for":
            return "<py:for each=\"q%d in [%s]\">$q%d</py:for>" % (self.n, e, self.n), ["for q%d in [%s]:" % (self.n, e), "  out(q%d)" % self.n]
        if pos == "with":
            return "<py:with vars=\"w%d = %s\">$w%d</py:with>" % (self.n, e, self.n), ["def s%d():" % self.n, "  w%d = %s" % (self.n, e), "  out(w%d)" % self.n, "s%d()" % self.n]
        if pos == "strip":
            return "<i py:strip=\"%s and True\">k</i>" % e, ["if not (%s and True): out('<i>')" % e, "out('k')", "if not (%s and True): out('</i>')" % e]
        if pos == "default":
            k = self.n
            return ("<py:if test=\"True\"><py:def function=\"d%d(v=%s)\">$v</py:def>${d%d()}</py:if>" % (k, e, k),
                    ["if True:", "  def d%d(v=%s):" % (k, e), "    push()", "    out(v)", "    return pop()", "  raw(d%d())" % k])
        raise KeyError(pos)

    def code(self, stmt):
        if stmt is None:
            return "", []
        return "<?python\n%s\n?>" % stmt, stmt.split("\n")

    def seq(self, *parts):
        return "".join([p[0] for p in parts]), [l for p in parts for l in p[1]]

    def scope(self, kind, body):
        src, ref = body
        ref = ref or ["pass"]
        self.n += 1
        k = self.n
        if kind == "main":
            return body
        if kind == "if":
            return '<py:if test="cond">%s</py:if>' % src, ["if cond:"] + ind(ref)
        if kind == "for":
            return '<py:for each="z9 in xs">%s</py:for>' % src, ["for z9 in xs:"] + ind(ref)
        if kind == "forel":
            return '<u py:for="z9 in xs">%s</u>' % src, ["for z9 in xs:", "  out('<u>')"] + ind(ref) + ["  out('</u>')"]
        if kind == "fora":
            return '<py:for each="a in xs">%s</py:for>' % src, ["for a in xs:"] + ind(ref)
        if kind == "forab":
            return '<py:for each="a, b in ps">%s</py:for>' % src, ["for a, b in ps:"] + ind(ref)
        if kind == "foraa":
            return '<py:for each="a in a">%s</py:for>' % src, ["for a in a:"] + ind(ref)
        if kind == "with":
            return '<py:with vars="z8 = 1">%s</py:with>' % src, ["def s%d():" % k, "  z8 = 1"] + ind(ref) + ["s%d()" % k]
        if kind == "witha":
            return '<py:with vars="a = \'wa\'">%s</py:with>' % src, ["def s%d():" % k, "  a = 'wa'"] + ind(ref) + ["s%d()" % k]
        if kind == "withaa":
            return '<py:with vars="a = a">%s</py:with>' % src, ["def s%d():" % k, "  a = a"] + ind(ref) + ["s%d()" % k]
        if kind == "withba":
            return '<u py:with="b = a">%s</u>' % src, ["def s%d():" % k, "  b = a", "  out('<u>')"] + ind(ref) + ["  out('</u>')", "s%d()" % k]
        if kind == "def":           # a top level def
            self.top += ["def f%d(p9):" % k, "  push()"] + ind(ref) + ["  return pop()"]
            return '<py:def function="f%d(p9)">%s</py:def>${f%d(1)}' % (k, src, k), ["raw(f%d(1))" % k]
        if kind == "defa":
            self.top += ["def f%d(a):" % k, "  push()"] + ind(ref) + ["  return pop()"]
            return '<py:def function="f%d(a)">%s</py:def>${f%d(\'arg\')}' % (k, src, k), ["raw(f%d('arg'))" % k]
        if kind == "defargs":
            self.top += ["def f%d(*a, b='kw', **c):" % k, "  push()"] + ind(ref) + ["  return pop()"]
            return '<py:def function="f%d(*a, b=\'kw\', **c)">%s</py:def>${f%d(1)}' % (k, src, k), ["raw(f%d(1))" % k]
        if kind == "local":         # a def within a scope
            return ('<py:if test="cond"><py:def function="f%d(p9)">%s</py:def>${f%d(1)}</py:if>' % (k, src, k),
                    ["if cond:", "  def f%d(p9):" % k, "    push()"] + ind(ref, 2) + ["    return pop()", "  raw(f%d(1))" % k])
        if kind == "block":
            self.top += ["def bl%d():" % k, "  push()"] + ind(ref) + ["  return pop()"]
            return '<py:block name="bl%d">%s</py:block>' % (k, src), ["raw(bl%d())" % k]
        raise KeyError(kind)


class Out(object):
    def __init__(self):
        self.stack = [[]]

    def out(self, v):
        self.stack[-1].append(str(v))

    def push(self):
        self.stack.append([])

    def pop(self):
        return "".join(self.stack.pop())


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&#34;").replace("'", "&#39;")


def reference(prog, body, ctx):
    o = Out()
    g = dict(ctx)

    def out(v):
        o.out(v)
    g["raw"] = out
    g["push"] = o.push
    g["pop"] = o.pop
    # expressions are wrapped in sh(): their text is escaped, the text of the tags is not
    # closures, not globals, so that what CPython itself gets wrong (PEP 709 in 3.12.3) is wrong here, too
    lines = ["def module():"]
    for name in ("a", "b", "len"):
        if name in ctx or name == "len":
            lines.append("  %s = ctx[%r]" % (name, name))
        else:
            lines.append("  if 0: %s = 0" % name)
    lines += ind(prog.top + ["def main():"] + ind(body or ["pass"]) + ["main()"]) + ["module()"]
    g["out"] = out
    g["ctx"] = dict(len=len)
    g["ctx"].update(ctx)

    def sh2(v=None):
        return esc(sh(v))
    g["sh"] = sh2
    exec("\n".join(lines), g)
    return "".join(o.stack[0])


BASE = dict(xs=None, ps=None, o=None, cm=None, cond=True, base=None)


def context(env, tag, names, n):
    c = dict(xs=["x", "y", "v"][:n], ps=[("p", "q"), ("r", "s")][:n], o=O(), cm=CM, cond=True, base=Base, sh=sh)
    for name, v in (("a", "A"), ("b", "B"), ("len", None)):
        if name in names and env.bool("%s.has_%s" % (tag, name)):
            c[name] = (lambda x: 1) if name == "len" else v
    return c


def run(env, prog, body, names, renders=1):
    src, ref = body
    n = env.choice("n", [2, 0, 1])
    t = load(env, "<html>" + src + "</html>")
    for i in range(renders):
        ctx = context(env, "r%d" % i, names, n)
        got = want = None
        e1 = e2 = None
        keys = sorted(ctx)
        try:
            got = t.render(dict(ctx))
        except Exception as e:
            e1 = "NameError" if isinstance(e, NameError) else type(e).__name__
        try:
            want = reference(prog, ref, ctx)
        except Exception as e:
            e2 = "NameError" if isinstance(e, NameError) else type(e).__name__
        env.check(e1 == e2, "%s, Python says %s: %s with %s" % (e1, e2, src, keys))
        if e1 is None:
            env.eq(got, "<html>" + want + "</html>", "names in %s with %s" % (src, keys))


def needs(src, extra=()):
    out = [x for x in ("a", "b", "len") if x in extra]
    for x in ("a", "b", "len"):
        if x not in out and any(w == x for w in words(src)):
            out.append(x)
    return out


def words(src):
    out = []
    cur = ""
    for ch in src:
        if ch.isalnum() or ch == "_":
            cur += ch
        else:
            out.append(cur)
            cur = ""
    return out + [cur]


def h_expr(env, exprs, positions, scopes):
    """An expression in a position in a scope, and a read after it in the scope and outside of it."""
    expr = EXPRS[env.choice("expr", exprs)]
    pos = env.choice("pos", positions)
    sc = env.choice("scope", scopes)
    p = Prog()
    inner = p.seq(p.read(expr, pos), p.read("a") if ":=" in expr or "a" in words(expr) and env.bool("again") else ("", []))
    body = p.scope(sc, inner)
    run(env, p, body, needs(body[0]))


def h_bind(env, binds, scopes, exprs, after):
    """A binding, then an expression, in a scope; then, if after, a read outside of the scope."""
    bind = BINDS[env.choice("bind", binds)]
    sc = env.choice("scope", scopes)
    expr = EXPRS[env.choice("expr", exprs)]
    p = Prog()
    inner = p.seq(p.code(bind), p.read(expr))
    body = p.scope(sc, inner)
    if after:
        body = p.seq(body, p.read("a"))
    run(env, p, body, needs(body[0]))


def h_before(env, binds, scopes, exprs):
    """The read precedes the binding: unbound local, or the context when nothing binds in the scope."""
    bind = BINDS[env.choice("bind", binds)]
    sc = env.choice("scope", scopes)
    expr = EXPRS[env.choice("expr", exprs)]
    p = Prog()
    body = p.scope(sc, p.seq(p.read(expr), p.code(bind)))
    run(env, p, body, needs(body[0]))


def h_two(env, binds1, binds2):
    b1 = BINDS[env.choice("b1", binds1)]
    b2 = BINDS[env.choice("b2", binds2)]
    p = Prog()
    body = p.seq(p.code(b1), p.code(b2), p.read("a"), p.read("b") if env.bool("readb") else ("", []))
    run(env, p, body, needs(body[0]))


def h_nest(env, outer, inners, binds):
    """Scopes in scopes: a binding in the outer one, one in the inner one, reads in both."""
    inner = env.choice("inner", inners)
    bind = BINDS[env.choice("bind", binds)]
    where = env.choice("where", ["outer", "inner", "after", "none"])
    p = Prog()
    i = p.scope(inner, p.seq(p.code(bind) if where == "inner" else ("", []), p.read("a")))
    o = p.scope(outer, p.seq(p.code(bind) if where == "outer" else ("", []), i, p.code(bind) if where == "after" else ("", []), p.read("a")))
    run(env, p, o, needs(o[0]))


def h_renders(env, binds, scopes):
    """Two renders with different variables: nothing of the first is visible in the second."""
    bind = BINDS[env.choice("bind", binds)]
    sc = env.choice("scope", scopes)
    p = Prog()
    body = p.seq(p.scope(sc, p.seq(p.code(bind), p.read("a"))), p.read("b"))
    run(env, p, body, needs(body[0], ("b",)), renders=2)


OWN = [
    # own names take precedence over the context and the builtins, whatever the place of the definition
    ('<html>${a()}<py:def function="a()">D</py:def>${a()}</html>', "<html>DD</html>"),
    ('<html><py:def function="a()">D${b()}</py:def><py:def function="b()">E</py:def>${a()}</html>', "<html>DE</html>"),
    ('<html><py:block name="a">D</py:block>${a()}</html>', "<html>DD</html>"),
    ('<html><b py:block="a">D</b>${a()}</html>', "<html><b>D</b><b>D</b></html>"),
    ('<html><py:def function="len(x)">D</py:def>${len(1)}</html>', "<html>D</html>"),
    ('<html><py:block name="len">D</py:block></html>', "<html>D</html>"),
    ('<html><py:def function="a(b)">D$b</py:def>${a(1)}${b}</html>', None),
    ('<html><py:def function="a(n)">$n<py:if test="n &gt; 0">${a(n - 1)}</py:if></py:def>${a(2)}</html>', "<html>210</html>"),
    ('<html><py:if test="True"><py:def function="a()">D</py:def>${a()}</py:if></html>', "<html>D</html>"),
    ('<html><py:for each="x in xs"><py:def function="a()">$x</py:def>${a()}</py:for></html>', "xs"),
    ('<html><py:def function="f()"><py:def function="a()">D</py:def>${a()}</py:def>${f()}</html>', "<html>D</html>"),
    ('<html><py:import href="lib" alias="a"/>${a.g()}</html>', "<html>G</html>"),
    ('<html><py:import href="lib" alias="len"/>${len.g()}</html>', "<html>G</html>"),
    ('<html><py:def function="f()">${a.g()}</py:def><py:import href="lib" alias="a"/>${f()}</html>', "<html>G</html>"),
    ('<html><py:block name="k">${a.g()}</py:block><py:import href="lib" alias="a"/></html>', "<html>G</html>"),
    ('<html><py:if test="True"><py:import href="lib" alias="a"/>${a.g()}</py:if></html>', "<html>G</html>"),
    ('<html><py:def function="a()">D</py:def><py:with vars="a = 1">$a</py:with>${a()}</html>', "<html>1D</html>"),
    ('<html><py:def function="a()">D</py:def>${[a for a in [1]]}${a()}</html>', "<html>[1]D</html>"),
    ('<html><py:def function="a()">D</py:def>${(lambda a: a)(1)}${a()}</html>', "<html>1D</html>"),
]


class Lib(object):
    """A loader that has one more template."""

    def __init__(self, L):
        self.t = L.Loader()
        self.t.load = self.load

    def load(self, name):
        return self.lib

    def make(self):
        self.lib = self.t.load_string('<html><py:def function="g()">G</py:def></html>')
        return self.t


def h_own(env):
    i = env.choice("i", list(range(len(OWN))))
    src, want = OWN[i]
    L = env.mod("tonnikala.loader")
    t = Lib(L).make().load_string(src)
    for k in range(2):
        ctx = context(env, "r%d" % k, ("a", "b", "len"), 2)
        del ctx["sh"]
        if "b" not in ctx and want is None:
            err = False
            try:
                t.render(ctx)
            except NameError:
                err = True
            env.check(err, "NameError: " + src)
            continue
        w = want
        if want is None:
            w = "<html>D1B</html>"
        elif want == "xs":
            w = "<html>xy</html>"
        env.eq(t.render(ctx), w, "own names: " + src)


def h_builtins(env):
    """Builtins and helpers are there unless the context has the name."""
    name = env.choice("name", ["len", "sorted", "range", "literal", "gettext", "ValueError", "str", "print", "open", "abs", "id", "list"])
    form = env.choice("form", ["<html>${sh(%s)}</html>", "<html><py:def function=\"f()\">${sh(%s)}</py:def>${f()}</html>", "<html><py:block name=\"k\">${sh(%s)}</py:block></html>",
                               "<html>${sh((lambda: %s)())}</html>", "<html>${sh([%s for i in [1]][0])}</html>", "<html><py:with vars=\"v = %s\">${sh(v)}</py:with></html>",
                               "<html><py:for each=\"v in [%s]\">${sh(v)}</py:for></html>", "<html><i k=\"${sh(%s)}\"/></html>"])
    has = env.bool("has")
    seen = []

    def sh1(v):
        seen.append(v)
        return ""
    ctx = dict(sh=sh1)
    mark = Base()
    if has:
        ctx[name] = mark
    load(env, form % name).render(ctx)
    env.check(len(seen) == 1, "evaluated once")
    if has:
        env.check(seen[0] is mark, "the context shadows the builtin " + name)
    else:
        env.check(seen[0] is not None and not isinstance(seen[0], Base) and callable(seen[0]), "the builtin " + name)


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


SCOPES = ["main", "if", "for", "forel", "fora", "forab", "with", "witha", "withba", "def", "defa", "defargs", "local", "block"]
POSITIONS = ["text", "attr", "boolattr", "attrs", "content", "replace", "if", "for", "with", "strip", "default"]


def cases(tier):
    deep = tier == "thorough"
    ne = list(range(len(EXPRS)))
    nb = list(range(len(BINDS)))
    for i, ch in enumerate(chunks(ne, 4)):
        yield dict(name="expr/pos/%d" % i, fn="h_expr", args=dict(exprs=ch, positions=POSITIONS, scopes=["main"] if not deep else SCOPES), cost=60, samples=4)
        yield dict(name="expr/scope/%d" % i, fn="h_expr", args=dict(exprs=ch, positions=["text"], scopes=SCOPES), cost=60, samples=4)
    few = [EXPRS.index(x) for x in ("a", "len", "(lambda: a)()", "(lambda a=a: a)()", "[a for b in xs]", "[a for a in xs]", "[b for b in xs if a]", "(lambda a: a)('p')", "(a := 'w')")]
    for i, ch in enumerate(chunks(nb, 3)):
        yield dict(name="bind/main/%d" % i, fn="h_bind", args=dict(binds=ch, scopes=["main"], exprs=ne if deep else few, after=False), cost=60, samples=4)
        yield dict(name="bind/scope/%d" % i, fn="h_bind", args=dict(binds=ch, scopes=SCOPES, exprs=few if deep else few[:1] + few[2:3] + few[4:5], after=False), cost=80, samples=4)
        yield dict(name="bind/after/%d" % i, fn="h_bind", args=dict(binds=ch, scopes=SCOPES, exprs=few[:1], after=True), cost=60, samples=4)
        yield dict(name="before/%d" % i, fn="h_before", args=dict(binds=ch, scopes=["main", "with", "def", "local", "block", "for"] if not deep else SCOPES, exprs=few[:1] + few[2:3] if not deep else few), cost=60, samples=4)
        yield dict(name="renders/%d" % i, fn="h_renders", args=dict(binds=ch, scopes=["main", "if", "for", "fora", "with", "def", "local"]), cost=100, samples=4)
        yield dict(name="two/%d" % i, fn="h_two", args=dict(binds1=ch, binds2=nb), cost=100, samples=4)
    some = [BINDS.index(x) for x in (None, "a = 'c'", "def a(): return 'fn'", "class a: pass", "for a in xs: pass", "import math as a")]
    for sc in SCOPES:
        inners = [s for s in SCOPES if s != "block" and not s.startswith("def")] if sc != "main" else SCOPES
        # an inner def or block is hoisted out of a top level scope: it must not see the variables around it
        for j, ch in enumerate(chunks(inners, 6)):
            yield dict(name="nest/%s/%d" % (sc, j), fn="h_nest", args=dict(outer=sc, inners=ch, binds=some if sc != "main" else some[:1]), cost=80, samples=4)
    yield dict(name="own", fn="h_own", args={}, cost=50)
    yield dict(name="builtins", fn="h_builtins", args={}, cost=50)
