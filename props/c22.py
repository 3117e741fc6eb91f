"""C22 The Chameleon syntax behaves like its py: equivalent."""
from props.common import load, esc, UNICODE, CS

NAMES = [("condition", "if"), ("repeat", "for"), ("content", "content"), ("replace", "replace"), ("omit-tag", "strip"), ("attrs", "attrs")]
EXPR = ["c%d", "x%d in l%d", "s%d", "r%d", "o%d", "d%d"]
BOUNDS = ("every subset of the six attributes on an element, in both orders, with every kind of value (strings of 0..2 characters of all of Unicode, numbers, None, booleans, "
          "markup); all pairs of a subset on an element and a subset of up to two (thorough: any) on an element inside of it, and beside it; %d spellings of expressions, with "
          "whitespace of 0..2 characters around them; every text and attribute value of 0..4 (thorough 0..5) characters of a letter, $, {, }, ., &, ;, quotes, whitespace, and of 0..2 of all "
          "of Unicode; %d kinds of elements, comments and doctypes around them")
OUTSIDE = "tal: attributes that have no py: equivalent; templates that have control attributes or elements of both kinds; line numbers of errors (C14, C15)"
ASSUMPTIONS = []

TEXTUAL = CS.of(map(ord, "a1${}.&;\"' \n()[_-!"))


class Mark(object):
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s


def py(src):
    """The equivalent template."""
    for t, p in NAMES:
        src = src.replace("tal:" + t, "py:" + p)
    return src


def outcome(env, src, syntax, ctx):
    X = env.mod("tonnikala.runtime.exceptions")
    try:
        t = load(env, src, syntax=syntax)
    except X.TemplateSyntaxError as e:
        return "syntax", ""
    try:
        return "output", t.render(ctx())
    except (NameError, TypeError, AttributeError, ValueError, ZeroDivisionError) as e:
        return "exception", e.__class__.__name__


def judge(env, src, ctx, must=None):
    a = outcome(env, src, "chameleon", ctx)
    b = outcome(env, py(src), "tonnikala", ctx)
    env.check(a[0] == b[0], "both render or fail: %s and %s" % (a[0], b[0]))
    env.eq(a[1], b[1], "the same is rendered")
    if must is not None:
        env.check(a[0] == must, "the template renders")


def attributes(subset, n, reverse=False):
    out = []
    for i in range(6):
        if subset >> i & 1:
            e = EXPR[i].replace("%d", str(n))
            out.append(" tal:%s='%s'" % (NAMES[i][0], e))
    if reverse:
        out = out[::-1]
    return "".join(out)


def values(env, n, rich, m=1):
    """A function that makes contexts: every time the same."""
    tag = str(n)
    c = {}
    c["c" + tag] = env.bool("c" + tag)
    s = env.strs("s" + tag, 0, m, UNICODE) if rich else "S<" + tag
    kind = env.choice("kind" + tag, ["str", "int", "none", "true", "false", "markup", "list"]) if rich else "str"
    c["s" + tag] = {"str": s, "int": 7, "none": None, "true": True, "false": False, "markup": Mark(s), "list": [1]}[kind]
    c["r" + tag] = c["s" + tag] if rich else "R&" + tag
    c["o" + tag] = env.bool("o" + tag)
    c["l" + tag] = [] if env.bool("empty" + tag) else ["p", "q" + tag]
    c["x" + tag] = "X"
    c["d" + tag] = {"k": c["s" + tag], "b": "new"} if rich else {"k": "K" + tag}
    return c


def h_one(env, subset, reverse, rich):
    v = values(env, 1, rich)
    src = "<html>-<b" + attributes(subset, 1, reverse) + " b='old' e='$x1'>t${x1}<i>u</i></b>+</html>"
    judge(env, src, lambda: dict(v), "output")


def h_root(env, subset):
    """The attributes on the root element."""
    v = values(env, 1, False)
    judge(env, "<b" + attributes(subset, 1) + ">t${x1}</b>", lambda: dict(v), "output")
    judge(env, "<!DOCTYPE html>\n<!-- c --><b" + attributes(subset, 1) + "><i>$x1</i></b>\n", lambda: dict(v), "output")


def h_nested(env, outer, inners, beside):
    inner = env.choice("inner", inners)
    v = values(env, 1, False)
    if env.bool("same"):
        # the same conditions
        w = dict([(k[:-1] + "2", x) for k, x in v.items()])
    else:
        w = dict([(k[:-1] + "2", x) for k, x in v.items()])
        w["c2"], w["o2"], w["l2"] = not v["c1"], not v["o1"], ["one"]
    v.update(w)
    a, b = attributes(outer, 1), attributes(inner, 2)
    if beside:
        src = "<html><u" + a + ">t</u><b" + b + ">$x1</b>$x2</html>"
    else:
        src = "<html><u" + a + ">t<b" + b + ">$x1</b>$x2</u></html>"
    judge(env, src, lambda: dict(v))


SPELLED = {
    "condition": ["@c@", "@not@c@", "@c and s@", "@s == '<'@", "@", "@c c@", "@[x for x in l]@", "@lambda: 0@", "@undefined@"],
    "repeat": ["@i in l@", "i@in@l", "@i, j in p@", "@(i, j) in p@", "@i in [1, 2]@", "@i in l if c else []@", "@", "@i@", "@i in@", "@i in 5@", "@x in l@", "@l in l@", "@i in undefined@", "@i.a in l@", "@[i, (j, k)] in [[1, (2, 3)]]@"],
    "content": ["@s@", "@s + 'x'@", "@[s]@", "@", "@'<'@", "@undefined@", "@s s@", "@literal('<')@", "@c and s@", "@None@", "@x for x in l@", "@$s@", "@${s}@"],
    "replace": ["@s@", "@s + 'x'@", "@[s]@", "@", "@'<'@", "@undefined@", "@s s@", "@literal('<')@", "@c and s@", "@None@", "@$s@", "@${s}@"],
    "omit-tag": ["@c@", "@not@c@", "@c and s@", "@", "@undefined@", "@s s@", "@True@", "@1/0@"],
    "attrs": ["@d@", "@{'q': s}@", "@[('q', s)]@", "@None@", "@", "@c and d@", "@undefined@", "@dict(q=c)@", "@d d@", "@'xy'@", "@{'b': None}@"],
}
BODIES = ["$i<i>t</i>", "", "$x"]


def h_spelled(env, name, i):
    """Every spelling of an expression."""
    spec = SPELLED[name][i]
    e = ""
    for j, part in enumerate(spec.split("@")):
        if j:
            e = e + env.concrete(env.strs("w%d" % j, 0, 2 if j == 1 else 1, CS.of([32, 9, 10] if j == 1 else [32, 10])))
        e = e + part
    c = env.bool("c")
    s = env.str("s", 1, UNICODE)
    ctx = lambda: dict(c=c, s=s, l=["p", s], p=[(1, s)], d={"q": s, "b": c}, x="X", i="I")
    quote = '"' if "'" in e else "'"
    for body in BODIES:
        judge(env, "<html><b b='y' tal:" + name + "=" + quote + e + quote + ">" + body + "</b>$x</html>", ctx)


def h_text(env, n, where, wide):
    """What is not controlled by the attributes."""
    s = env.str("s", n, UNICODE.minus(CS.of([38, 60])) if wide else TEXTUAL)
    ctx = lambda: dict(c=True, a="A<", a1="B", l=["p", "q"])
    if where == "text":
        src = "<html><b tal:condition='c'>" + s + "</b></html>"
    elif where == "attribute":
        if wide:
            env.assume('"' not in s)
        src = '<html><b tal:condition="c" b="' + s + '">x</b></html>' if '"' not in s else "<html><b tal:condition='c' b=\"x" + s.replace('"', "'") + "\">x</b></html>"
    elif where == "comment":
        src = "<html><b tal:repeat='i in l'><!--" + s + "--></b></html>"
    elif where == "loop":
        src = "<html><b tal:repeat='i in l' tal:omit-tag='c'>" + s + "$i;" + "</b></html>"
    elif where == "script":
        env.assume("<" not in s)
        src = "<html><script tal:repeat='i in l'>" + s + "</script></html>"
    else:
        src = "<html>" + s + "<b tal:condition='c'/>" + s + "</html>"
    judge(env, src, ctx)


ELEMENTS = {
    "void": "<html><img b='$x'{}/></html>",
    "void-open": "<html><br{}>$x</html>",
    "script": "<html><script{}>$x < y && z</script></html>",
    "style": "<html><p{}><style>a > b {{ }}</style></p></html>",
    "title": "<html><title{}>$x &amp; y</title></html>",
    "textarea": "<html><textarea{}>$x<b></textarea></html>",
    "empty": "<html><b{}></b></html>",
    "self": "<html><b{}/>x</html>",
    "boolean": "<html><input checked{} value='$x' disabled='' y=\"${n}\" z=\"${t}\"></html>",
    "prefixed": "<html xmlns:tal='http://xml.zope.org/namespaces/tal'><x:b{} x:y='$x'>t</x:b></html>",
    "upper": "<HTML><B{} CLASS='x'>$x</B></HTML>",
    "comment": "<html><b{}><!-- $x < & -->t<!----><!--! y --></b></html>",
    "doctype": "<!DOCTYPE html>\n<html><b{}>t</b></html>",
    "entities": "<html><b{} b='&lt;&amp;&quot;&#65;&nbsp;'>&lt;&amp;&#65;&nbsp;&quot;</b></html>",
    "dollars": "<html><b{} b='$$x $1 $'>$$x $1 $</b></html>",
    "deep": "<html><b{}><i><u{}>$x</u></i></b></html>",
    "children": "<html><b{}>1<i>2</i>3<i>4</i><!--5-->6</b></html>",
    "blank": "<html>\n  <b{}>\n   $x\n </b>\n</html>",
    "pair": "<html><b{}>$x</b><b{}>${x}</b></html>",
}


def h_element(env, kind, subsets):
    subset = env.choice("subset", subsets)
    v = values(env, 1, False)
    v.update(x="<X>", n=None, t=True)
    src = ELEMENTS[kind].replace("{{", "{").replace("}}", "}")
    judge(env, attributes(subset, 1).join(ELEMENTS[kind].split("{}")) if "{{" not in ELEMENTS[kind] else src.replace("{}", attributes(subset, 1), 1), lambda: dict(v))


def h_tag(env, kind):
    """<tal:replace value="...">"""
    s = env.strs("s", 0, 2, UNICODE)
    c = env.bool("c")
    src = {"plain": "<html><tal:replace value='s'>x</tal:replace></html>",
           "empty": "<html><tal:replace value='s'/>y</html>",
           "condition": "<html><tal:replace value='s' tal:condition='c'>x</tal:replace></html>",
           "repeat": "<html><tal:replace value='i + s' tal:repeat='i in l'>x</tal:replace></html>",
           "missing": "<html><tal:replace>x</tal:replace></html>",
           "none": "<html><tal:replace value>x</tal:replace></html>"}[kind]
    judge(env, src, lambda: dict(s=s, c=c, l=["p", "q"]))


BOUNDS = BOUNDS % (sum([len(v) for v in SPELLED.values()]), len(ELEMENTS))


def cases(tier):
    deep = tier == "thorough"

    def case(title, fn, cost, **args):
        return dict(name=title, fn=fn, args=args, cost=cost, samples=6)
    small = [s for s in range(64) if bin(s).count("1") <= 2] + [63]
    for s in range(64):
        for r in (0, 1):
            yield case("one/%d/%d" % (s, r), "h_one", 50, subset=s, reverse=r, rich=not r or deep)
        yield case("root/%d" % s, "h_root", 20, subset=s)
        yield case("nested/%d" % s, "h_nested", 200, outer=s, inners=list(range(64)) if deep else small, beside=False)
        if deep or bin(s).count("1") < 3:
            yield case("beside/%d" % s, "h_nested", 200, outer=s, inners=list(range(64)) if deep else [1, 2, 4, 8, 16, 32, 63], beside=True)
    for n in SPELLED:
        for i in range(len(SPELLED[n])):
            yield case("spelled/%s/%d" % (n, i), "h_spelled", 100, name=n, i=i)
    for w in ("text", "attribute", "comment", "loop", "script", "around"):
        for n in range(0, 5 if deep else 4):
            yield case("text/%s/%d" % (w, n), "h_text", 5 ** n, n=n, where=w, wide=False)
        for n in range(1, 4 if deep else 3):
            yield case("wide/%s/%d" % (w, n), "h_text", 5 ** n, n=n, where=w, wide=True)
    for e in sorted(ELEMENTS):
        yield case("element/" + e, "h_element", 100, kind=e, subsets=list(range(64)) if deep else small)
    for k in ("plain", "empty", "condition", "repeat", "missing", "none"):
        yield case("tag/" + k, "h_tag", 20, kind=k)
