"""C19 JavaScript templates render like the equivalent Python templates."""
import itertools
from props import jsx
from props.common import load, UNICODE, CS
from symx import jsnode

RUNTIME = "/repo/tonnikala/runtime/javascript.js"
BOUNDS = ("one element with every subset of the eight attribute directives (and attributes, contents, empty); every pair (thorough: triple) of 13 nested constructs, and every triple of a subset, "
          "with every pair of contents beside each other out of 24; every kind of attribute out of 12 with every kind of value; lists of 0..2 (thorough 0..3) elements, every outcome of "
          "every condition (booleans, strings, numbers, null), strings of 0..2 characters of all of Unicode; 60 static texts and 20 attribute values")
OUTSIDE = ("expressions that mean something else in the two languages (texts of None and of booleans, truth of empty lists, arithmetic but on small integers, the order of strings, attributes of objects); loop variables "
           "after their loop; with variables that are defined by themselves; defs within loops or conditions that are used outside of them; mappings as attribute lists; extends, import, translation; surrogates")
ASSUMPTIONS = ["props/jsx.py models the parts of JavaScript that the runtime and the generated code use; counterexamples and a sample of the paths are replayed by node",
               "the Python target renders as documented (C01, C02, C06, C07, C09)"]
PRELOAD = ["props.jsx", "tonnikala.loader"]
OPTS = {}

DOM = UNICODE.minus(CS.of(range(0xD800, 0xE000)))
# one that is escaped and others that are not: C18 decides the escaping of each
TWO = DOM.minus(CS.of(map(ord, "<>\"'")))
NONE = TWO.minus(CS.of([38]))
SCENARIO = "function (ctx) { return mods[1][1](mods[0][1]())(ctx).render(); }"


def both(env, src, ctx, why=""):
    """src has js: for the control prefix."""
    t = load(env, src.replace("js:", "py:"))
    want = "".join([x for x in t.render(dict(ctx))])
    code = jsnode.CODES.get(src)
    if code is None:
        code = jsnode.CODES[src] = env.mod("tonnikala.loader").JSLoader().load_string(src)
    tag, got = jsx.run(env, [jsnode.read(RUNTIME), code], SCENARIO, [ctx])
    env.check(tag == "ok", "the JavaScript template renders")
    env.eq(got, want, "the JavaScript target renders what the Python target renders")


class Values(object):
    """The context: made as templates need it."""

    def __init__(self, env, plain=False):
        self.env = env
        self.ctx = {}
        self.dom = NONE if plain else TWO

    def add(self, name):
        if name in self.ctx:
            return
        k, env = name[0], self.env
        if k == "s":            # a string
            v = env.str(name, 1, self.dom)
        elif k == "w":          # a string of any length
            v = env.strs(name, 0, 2, DOM)
        elif k == "c":          # a condition
            v = env.choice(name, [True, False])
        elif k == "d":          # a condition of any kind
            v = env.choice(name, [True, False, None, 0, 1, "", "x"] if self.dom is TWO else [True, 0, "", "x"])
        elif k == "l":          # a list of strings
            n = env.choice(name + ".n", [0, 1, 2])
            v = [env.str("%s.%d" % (name, i), 1, self.dom) for i in range(n)]
        elif k == "n":
            v = env.choice(name, [0, 7, -3])
        elif k == "v":          # the value of an attribute
            kind = env.choice(name + ".kind", ["str", "true", "none"] if self.dom is NONE else ["str", "empty", "true", "false", "none", "zero", "int"])
            v = {"str": None, "empty": "", "true": True, "false": False, "none": None, "zero": 0, "int": 12}[kind]
            if kind == "str":
                v = env.str(name, 1, DOM if self.dom is TWO else self.dom)
        elif k == "p":          # a list of pairs
            n = env.choice(name + ".n", [0, 1, 2])
            v = [["k%d" % i, env.choice("%s.%d" % (name, i), ["<", "", True, False, None, 3])] for i in range(n)]
        else:
            raise KeyError(name)
        self.ctx[name] = v


DIRECTIVES = [("for", "x in l1", ["l1"]), ("if", "c1", ["c1"]), ("strip", "c2", ["c2"]), ("content", "s2", ["s2"]), ("replace", "s3", ["s3"]),
              ("with", "y = s4; z = 'q'", ["s4"]), ("attrs", "p1", ["p1"]), ("def", "f(u)", [])]
BODIES = {"text": ("t<i>u</i>", []), "expr": ("[$s1]", ["s1"]), "empty": ("", []), "void": (None, [])}


def h_element(env, subset, body, attrs):
    """One element with a subset of the directives."""
    text, names = BODIES[body]
    ds = [d for i, d in enumerate(DIRECTIVES) if subset >> i & 1]
    keys = [d[0] for d in ds]
    a = "".join([" js:%s=\"%s\"" % (d[0], d[1]) for d in ds]) + (' a="1" b="$v1" c="-${s5}-"' if attrs else "")
    if text is not None:
        if "for" in keys:
            text += "($x)"
        if "with" in keys:
            text += "{$y$z}"
        if "def" in keys:
            text += "/$u/"
        el = "<b" + a + ">" + text + "</b>"
    else:
        el = "<br" + a + "/>"
    src = "<html>1" + el + "2" + ("${f(s6)}${f('&lt;')}3" if "def" in keys else "") + "</html>"
    v = Values(env, len(ds) > 2)
    for d in ds:
        for n in d[2]:
            v.add(n)
    for n in names + (["v1", "s5"] if attrs else []) + (["s6"] if "def" in keys else []):
        v.add(n)
    both(env, src, v.ctx)


def h_root(env, subset):
    ds = [d for i, d in enumerate(DIRECTIVES[:7]) if subset >> i & 1]
    v = Values(env)
    for d in ds:
        for n in d[2]:
            v.add(n)
    v.add("s1")
    both(env, "<html" + "".join([" js:%s=\"%s\"" % (d[0], d[1]) for d in ds]) + ">[$s1]</html>", v.ctx)


# name -> (source, names); # is the number of the construct
OUTER = {
    "if": ('<js:if test="d#">%s</js:if>', ["d#"]),
    "ifel": ('<b js:if="c#">%s</b>', ["c#"]),
    "not": ('<js:if test="c# != 1">%s</js:if>', ["c#"]),
    "for": ('<js:for each="x# in l#">${x#}%s</js:for>', ["l#"]),
    "forel": ('<b js:for="x# in l#" c="$x#">%s</b>', ["l#"]),
    "def": ('<js:def function="f#(q#)">${q#}%s</js:def>-${f#(s#)}${f#("a")}', ["s#"]),
    "defel": ('<b js:def="g#(q#, r#)">${r#}%s${q#}</b>${g#(s#, "&amp;")}', ["s#"]),
    "with": ('<js:with vars="w# = s#">${w#}%s</js:with>', ["s#"]),
    "withel": ('<b js:with="w# = s#; m# = w#" c="$m#">%s</b>', ["s#"]),
    "strip": ('<b js:strip="c#">%s</b>', ["c#"]),
    "el": ('<b a="$v#" c="1">%s</b>', ["v#"]),
    "block": ('<js:block name="b#">(%s)</js:block>', []),
    "blockel": ('<b js:block="b#">%s</b>', []),
}
INNER = {
    "text": (" te xt", []), "expr": ("${s1}", ["s1"]), "braced": ("${s1 + '-'}", ["s1"]), "int": ("${n1}", ["n1"]), "dollar": ("$$x$ ", []),
    "entity": ("&lt;&amp;&eacute;", []), "comment": ("<!-- c \" --><!--! d -->", []), "void": ("<br/><hr>", []), "script": ("<script>if (a < b && \"c\") '$s1'</script>", ["s1"]),
    "attr": ("<i a='$v1'/>", ["v1"]), "mixed": ("<i a='x$s1${s2}$$'/>", ["s1", "s2"]), "attrs": ('<i js:attrs="p1" z="1"/>', ["p1"]),
    "content": ('<i js:content="s1">x</i>', ["s1"]), "replace": ('<i js:replace="s1">x</i>', ["s1"]), "replaceel": ('<js:replace value="s1"/>', ["s1"]),
    "lit": ("${literal(s1)}", ["s1"]), "litattr": ('<i a="${literal(s1)}"/>', ["s1"]), "litmix": ('<i a="-${literal(s1)}"/>', ["s1"]),
    "cond": ('<js:if test="c1">y</js:if>', ["c1"]), "loop": ('<i js:for="e in l1">$e</i>', ["l1"]), "vars": ('<js:with vars="k = \'&quot;\'">$k</js:with>', []),
    "fun": ('<js:def function="h(a)"><u>$a</u></js:def>${h(s1)}${h(h(s1))}', ["s1"]), "funattr": ('<js:def function="h(a)">$a</js:def><u b="${h(s1)}" c="-${h(s1)}"/>', ["s1"]),
    "strips": ('<i js:strip="c1">x</i>', ["c1"]),
}


def build(parts, inner):
    """Nested constructs around contents."""
    src, names = inner
    names = list(names)
    for i, p in reversed(list(enumerate(parts))):
        o, ns = OUTER[p]
        k = str(i + 5)
        src = o.replace("#", k) % src if "%s" in o else o
        names += [n.replace("#", k) for n in ns]
    return src, names


def hoisted(parts):
    """Blocks see only the context: no variables of constructs around them may be used, and defs around them are functions."""
    for i, p in enumerate(parts):
        if p.startswith("block"):
            return any([q in ("for", "forel", "def", "defel", "with", "withel") for q in parts[:i]])
    return False


def h_nest(env, parts, inners, deep=False):
    k = env.choice("inner", inners)
    src, names = build(parts, INNER[k])
    v = Values(env, not deep and len(parts) > 0)
    for n in names:
        v.add(n)
    both(env, "<html>[" + src + "]</html>", v.ctx)


def h_beside(env, first, deep=False):
    """Two contents beside each other."""
    k = env.choice("second", [x for x in sorted(INNER) if not (x.startswith("fun") and first.startswith("fun"))])
    v = Values(env, not deep)
    for n in INNER[first][1] + INNER[k][1]:
        v.add(n)
    both(env, "<html>" + INNER[first][0] + INNER[k][0] + "</html>", v.ctx)


ATTRS = ["$w1", "${w1}", "${w1 + s1}", "x$w1", "$w1 ", "$w1$s1", "$$$w1", "&lt;$w1&quot;", "${'&lt;'}", "${literal(w1)}", "${literal(w1)}-", "'$w1'"]


def h_attr(env, value):
    v = Values(env)
    v.add("w1")
    v.add("s1")
    both(env, "<html><b a=\"" + value + "\" c>$w1</b></html>", v.ctx)


def h_value(env):
    """Every kind of value of an attribute."""
    v = Values(env)
    if env.bool("list"):
        v.add("p1")
        v.ctx["v1"] = None
        v.ctx["v2"] = True
    else:
        v.add("v1")
        v.add("v2")
        v.ctx["p1"] = [["k", "v"], ["m", False]]
    both(env, '<html><b a="$v1" c="${v2}" d="e" js:attrs="p1"/></html>', v.ctx)


TEXTS = ["a", "'", "\"", "\\", "\\n", "\n", "\t", "a\nb", "é", "\u2028", "\u2029", "\ufeff", "\U0001F600", "\x7f", "\x01", "\x0b", "\x85", "&#0;", "&nbsp;", "&lt;/script&gt;", "//", "/* */", "*/",
         "&amp;amp;", "\\u0041", "\\x41", "\\'", "\\\\", "\\\"", "%s", "%%", "{}", "}", "{", "$", "$$", "$1", "$ {", "$$a", "$${", "a$$", "+", "`", "`{", "&quot;", "&apos;s", "&#39;", "&#34;", "&gt;", ">", "]]&gt;",
         "&lt;!--", "--&gt;", "null", "undefined", "true", "\\0", "\\8", "\\\n", " \n "]


def h_text(env, texts):
    """Static text."""
    t = env.choice("text", texts)
    v = Values(env)
    v.add("s1")
    if "&apos;" in t:
        t = t.replace("&apos;", "'")
    both(env, "<html>" + t + "<b>" + t + "${s1}" + t + "</b></html>", v.ctx)
    if "\"" not in t:
        both(env, "<html><b a=\"" + t + "\" b=\"" + t + "${s1}\"/></html>", v.ctx)
    if "<" not in t and "--" not in t:
        both(env, "<html><!--" + t.replace("&", "") + "--><script>" + t.replace("$", "").replace("&", "") + "</script></html>", v.ctx)


SHAPES = {
    "closure": ('<html><a js:def="embed(func)">${func()}</a><js:for each="i in l1"><js:def function="callable()">${i}</js:def>${embed(callable)}</js:for></html>', ["l1"]),
    "shadow": ('<html>$s1<js:with vars="s1 = s2">$s1</js:with>$s1</html>', ["s1", "s2"]),
    "shadowattr": ('<html>$s1<b js:with="s1 = s2" c="$s1">$s1</b>$s1</html>', ["s1", "s2"]),
    "withtwo": ('<html><js:with vars="a = s1; b = a + s2">$a$b</js:with></html>', ["s1", "s2"]),
    "withnested": ('<html><js:with vars="a = s1"><js:with vars="b = a; c = s2">$a$b$c</js:with>$a</js:with></html>', ["s1", "s2"]),
    "withinner": ('<html><js:with vars="a = s1"><js:with vars="a = s2">$a</js:with>$a</js:with></html>', ["s1", "s2"]),
    "defafter": ('<html>${f(s1)}<js:def function="f(a)"><i>$a</i></js:def></html>', ["s1"]),
    "deftwo": ('<html><js:def function="f(a)">f$a</js:def><js:def function="g(a)">g${f(a)}</js:def>${g(s1)}${f(s2)}</html>', ["s1", "s2"]),
    "defnoargs": ('<html><js:def function="f">$s1</js:def>${f()}${f()}</html>', ["s1"]),
    "defarg": ('<html><js:def function="f(s1)">$s1</js:def>${f(s2)}$s1</html>', ["s1", "s2"]),
    "deffor": ('<html><js:def function="f(xs)"><i js:for="x in xs">$x</i></js:def>${f(l1)}${f(l2)}</html>', ["l1", "l2"]),
    "deflist": ('<html><js:def function="f(xs)"><i js:for="x in xs">$x</i></js:def><js:for each="y in l1">${f([y, s1])}</js:for></html>', ["l1", "s1"]),
    "defdef": ('<html><js:def function="f(a)"><js:def function="g(b)">$a$b</js:def>${g(s1)}</js:def>${f(s2)}</html>', ["s1", "s2"]),
    "defbody": ('<html><js:def function="f(a)"><b js:if="a">$a</b></js:def>${f(s1)}${f(d1)}</html>', ["s1", "c1"]),
    "forfor": ('<html><js:for each="x in l1"><js:for each="y in l2">$x$y </js:for>$x</js:for></html>', ["l1", "l2"]),
    "forsame": ('<html><js:for each="x in l1">$x<js:for each="x in l2">$x </js:for></js:for></html>', ["l1", "l2"]),
    "twice": ('<html><js:for each="x in l1">$x</js:for>-<js:for each="x in l1">$x</js:for></html>', ["l1"]),
    "forif": ('<html><js:for each="x in l1"><b js:if="x == s1">$x</b></js:for></html>', ["l1", "s1"]),
    "ifelse": ('<html><js:if test="s1 == s2">=</js:if><js:if test="s1 != s2">!</js:if></html>', ["s1", "s2"]),
    "ifand": ('<html><js:if test="n1 &lt; 5">&lt;</js:if></html>', ["n1"]),
    "ifin": ('<html><js:if test="l1[0] == s1">y</js:if></html>', ["s1"]),
    "blocks": ('<html><js:block name="a">$s1<js:block name="b">$s2</js:block></js:block><js:block name="c">$s1</js:block></html>', ["s1", "s2"]),
    "blockif": ('<html><js:if test="c1"><js:block name="a">$s1</js:block></js:if></html>', ["s1", "c1"]),
    "blockdef": ('<html><js:def function="f(a)">$a</js:def><js:block name="a">${f(s1)}</js:block></html>', ["s1"]),
    "blockcall": ('<html><js:block name="a">$s1</js:block>${a()}</html>', ["s1"]),
    "blockdefs": ('<html><js:block name="a"><js:def function="f(q)">$q</js:def>${f(s1)}</js:block>-</html>', ["s1"]),
    "index": ('<html>$l9[0]${l9[1]}<b a="$l9[1]" b="-$l9[0]"/></html>', ["l9"]),
    "call": ('<html><js:def function="f(a, b)">$b$a</js:def>$f(s1, s2)<b a="$f(s1, \'x\')"/></html>', ["s1", "s2"]),
    "stripexpr": ('<html><b js:strip="s1 == s2">x</b><i js:strip="c1">y</i></html>', ["s1", "s2", "c1"]),
    "nested literal": ('<html>${literal(literal(s1))}${literal(s1 + s2)}</html>', ["s1", "s2"]),
    "literal vars": ('<html><js:with vars="m = literal(s1)">$m<b a="$m" b="-$m">${literal(m)}</b></js:with></html>', ["s1"]),
    "contentdef": ('<html><js:def function="f(a)"><u>$a</u></js:def><b js:content="f(s1)"/><js:replace value="f(s2)"/></html>', ["s1", "s2"]),
    "attrsdef": ('<html><js:def function="f(a)"><u>$a</u></js:def><b js:attrs="[[\'a\', f(s1)], [\'b\', s2], [\'c\', c1]]"/></html>', ["s1", "s2", "c1"]),
    "concat": ('<html>${s1 + s2}${s1 + "&lt;"}</html>', ["s1", "s2"]),
    "ints": ('<html>${n1 + 1}${n1 * 2}${n1 - 5}</html>', ["n1"]),
    "strings": ('<html>${"a\'b"}${\'c"d\'}${"\\n"}${"\\\\"}</html>', []),
    "many": ("<html>" + "<b>$s1</b>" * 40 + "</html>", ["s1"]),
}


def h_shape(env, shape):
    src, names = SHAPES[shape]
    v = Values(env)
    for n in names:
        if n == "l9":
            v.ctx[n] = [env.str("l9.0", 1, TWO), env.str("l9.1", 1, TWO)]
        else:
            v.add(n)
    if shape == "defbody":
        v.ctx["d1"] = v.ctx["c1"] and "x" or ""
    if shape == "ifin":
        v.ctx["l1"] = [env.str("l1.0", 1, TWO), "b"]
    both(env, src, v.ctx)


def cases(tier):
    deep = tier == "thorough"
    out = []
    # a def within a loop or a condition is visible there only in JavaScript
    subsets = [x for x in range(256) if not (x & 128 and x & 3)]
    for subset in subsets:
        for body in BODIES:
            n = bin(subset).count("1")
            if deep or n <= 2 or body == "expr":
                if not deep and n > 3:
                    continue
                out.append(dict(name="element/%d/%s" % (subset, body), fn="h_element", args=dict(subset=subset, body=body, attrs=False)))
    for subset in subsets if deep else (0, 1, 2, 4, 8, 16, 32, 64, 128, 3, 5, 144):
        out.append(dict(name="attributed/%d" % subset, fn="h_element", args=dict(subset=subset, body="text", attrs=True)))
    for subset in range(128):
        if deep or bin(subset).count("1") <= 2:
            out.append(dict(name="root/%d" % subset, fn="h_root", args=dict(subset=subset)))
    inner = sorted(INNER)
    few = ["text", "expr", "mixed", "fun", "cond", "loop"]
    for k in inner:
        out.append(dict(name="inner/" + k, fn="h_nest", args=dict(parts=[], inners=[k], deep=True)))
    for p in OUTER:
        out.append(dict(name="nest1/" + p, fn="h_nest", args=dict(parts=[p], inners=inner, deep=deep)))
    for p, q in itertools.product(OUTER, OUTER):
        if not hoisted([p, q]):
            out.append(dict(name="nest2/%s/%s" % (p, q), fn="h_nest", args=dict(parts=[p, q], inners=inner if deep else few)))
    t = list(OUTER) if deep else ["if", "for", "def", "with", "strip"]
    for ps in itertools.product(t, t, t):
        if not hoisted(list(ps)):
            out.append(dict(name="nest3/%s/%s/%s" % ps, fn="h_nest", args=dict(parts=list(ps), inners=few if deep else ["expr"])))
    for k in inner:
        out.append(dict(name="beside/" + k, fn="h_beside", args=dict(first=k, deep=deep)))
    for i, a in enumerate(ATTRS):
        out.append(dict(name="attr/%d" % i, fn="h_attr", args=dict(value=a)))
    out.append(dict(name="value", fn="h_value"))
    for i in range(0, len(TEXTS), 6):
        out.append(dict(name="text/%d" % i, fn="h_text", args=dict(texts=TEXTS[i:i + 6])))
    for k in SHAPES:
        out.append(dict(name="shape/" + k, fn="h_shape", args=dict(shape=k)))
    return out
