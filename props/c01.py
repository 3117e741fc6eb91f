"""C01 Interpolated values are HTML-escaped exactly once."""
from props.common import esc, load, UNICODE

BOUNDS = ("context strings of every length 0..3 (thorough: 0..5) over all of Unicode in every interpolation position; "
          "two independent values of length 1 (thorough 2) each")
OUTSIDE = "longer strings, deeper nesting of positions than listed"
ASSUMPTIONS = ["markupsafe's pure Python escape stands in for its C accelerator during exploration; replays use the C accelerator",
               "the pure Python output buffer is explored; the C buffer is compared with it by C17"]

# name -> (template, context-independent prefix, suffix); the value x appears escaped in between
POS = {
    "text": ("<a>$x</a>", "<a>", "</a>"),
    "braced": ("<a>p${x}q</a>", "<a>p", "q</a>"),
    "attr": ('<a b="$x"></a>', '<a b="', '"></a>'),
    "attrbraced": ('<a b="${x}"></a>', '<a b="', '"></a>'),
    "attrmixed": ('<a b="1${x}2"></a>', '<a b="1', '2"></a>'),
    "attrpre": ('<a b="1$x" c="k"></a>', '<a c="k" b="1', '"></a>'),
    "content": ('<a py:content="x">old</a>', "<a>", "</a>"),
    "replace": ('<b><a py:replace="x">old</a></b>', "<b>", "</b>"),
    "replaceel": ('<b><py:replace value="x">old</py:replace></b>', "<b>", "</b>"),
    "attrsdict": ("<a py:attrs=\"{'b': x}\"></a>", '<a b="', '"></a>'),
    "attrspairs": ("<a py:attrs=\"[('b', x)]\"></a>", '<a b="', '"></a>'),
    "defarg": ('<d><py:def function="f(v)"><i>$v</i></py:def>${f(x)}</d>', "<d><i>", "</i></d>"),
    "defattr": ('<d><py:def function="f(v)"><i t="$v"></i></py:def>${f(x)}</d>', '<d><i t="', '"></i></d>'),
    "nestdef": ('<d><py:def function="f(v)"><i>$v</i></py:def><py:def function="g(w)"><b>${f(w)}</b></py:def>${g(x)}</d>',
                "<d><b><i>", "</i></b></d>"),
    "with": ('<a py:with="v = x">$v</a>', "<a>", "</a>"),
    "for": ('<a><py:for each="v in [x]">$v</py:for></a>', "<a>", "</a>"),
    "if": ('<a><py:if test="1 == 1">$x</py:if></a>', "<a>", "</a>"),
    "block": ('<a><py:block name="m">$x</py:block></a>', "<a>", "</a>"),
    "strip": ('<c><a py:strip="True">$x</a></c>', "<c>", "</c>"),
    "cond": ('<a>${x if x is not None else 0}</a>', "<a>", "</a>"),
    "call": ('<a>${(lambda v: v)(x)}</a>', "<a>", "</a>"),
    "item": ("<a>${{'k': x}['k']}</a>", "<a>", "</a>"),
    "dollaritem": ('<a>$y[0]</a>', "<a>", "</a>"),
    "dollarattr": ('<a>$o.v</a>', "<a>", "</a>"),
    "dollarcall": ('<a>$ident(x)</a>', "<a>", "</a>"),
    "script": ("<a><script>var a = $x;</script></a>", "<a><script>var a = ", ";</script></a>"),
    "run": ("<a>1$one 2$one 3$x 4$one</a>", "<a>11 21 3", " 41</a>"),
}


class Obj(object):
    def __init__(self, v):
        self.v = v


class Html(object):
    def __init__(self, v):
        self.v = v

    def __html__(self):
        return self.v


class Str(object):
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return self.v


class Fmt(object):
    def __str__(self):
        return "<o&'\">"


def ctx(x, **kw):
    d = dict(x=x, one=1, y=[x], o=Obj(x), ident=lambda v: v)
    d.update(kw)
    return d


def h_str(env, pos, n):
    src, pre, suf = POS[pos]
    x = env.str("x", n)
    out = load(env, src).render(ctx(x))
    env.eq(out, pre + esc(x) + suf, "the value is escaped exactly once at " + pos)


def h_repeat(env, n):
    """The same template rendered for two values, both in one text and in one attribute."""
    x = env.str("x", n)
    y = env.str("y", n)
    t = load(env, '<a b="$x" c="$x-$z">$x$z<i>${x}${z}</i></a>')
    out = t.render(dict(x=x, z=y))
    ex, ez = esc(x), esc(y)
    env.eq(out, '<a b="' + ex + '" c="' + ex + "-" + ez + '">' + ex + ez + "<i>" + ex + ez + "</i></a>", "two values")


def h_plus(env):
    x = env.str("x", 2)
    out = load(env, '<a b="${x + k}">${x + k}${k + x}</a>').render(dict(x=x, k="<&"))
    e = esc(x)
    env.eq(out, '<a b="' + e + '&lt;&amp;">' + e + "&lt;&amp;&lt;&amp;" + e + "</a>", "concatenated in the expression")


def h_markup(env, pos, kind, n):
    """Markup, __html__ and literal() values are output verbatim."""
    src, pre, suf = POS[pos]
    raw = env.str("x", n)
    M = env.mod("markupsafe")
    if kind == "markup":
        x = M.Markup(raw)
    elif kind == "html":
        x = Html(raw)
    out = load(env, src).render(ctx(x))
    env.eq(out, pre + raw + suf, "%s value is verbatim at %s" % (kind, pos))


LIT = {
    "text": ("<a>${literal(x)}</a>", "<a>", "</a>"),
    "run": ("<a>1${literal(x)}2$one</a>", "<a>1", "21</a>"),
    "mixedattr": ('<a b="1${literal(x)}2"></a>', '<a b="1', '2"></a>'),
    "attr": ('<a b="${literal(x)}"></a>', '<a b="', '"></a>'),
    "content": ('<a py:content="literal(x)"></a>', "<a>", "</a>"),
    "replace": ('<b><a py:replace="literal(x)"></a></b>', "<b>", "</b>"),
    "attrs": ("<a py:attrs=\"{'b': literal(x)}\"></a>", '<a b="', '"></a>'),
    "cond": ("<a>${literal(x) if one else 0}</a>", "<a>", "</a>"),
    "with": ('<a py:with="v = literal(x)">$v</a>', "<a>", "</a>"),
    "defarg": ('<d><py:def function="f(v)"><i>$v</i></py:def>${f(literal(x))}</d>', "<d><i>", "</i></d>"),
}


def h_literal(env, pos, n):
    src, pre, suf = LIT[pos]
    raw = env.str("x", n)
    out = load(env, src).render(ctx(raw))
    env.eq(out, pre + raw + suf, "literal() is verbatim at " + pos)


def h_notmarkup(env, n):
    """A literal applied to one value does not disable escaping of its neighbours."""
    x = env.str("x", n)
    y = env.str("y", n)
    out = load(env, '<a>$y${literal(x)}$y<b c="$y${literal(x)}">${literal(x)}$y</b></a>').render(dict(x=x, y=y))
    e = esc(y)
    env.eq(out, "<a>" + e + x + e + '<b c="' + e + x + '">' + x + e + "</b></a>", "literal affects only its own value")


def h_other(env, pos):
    """Non-string values: the escape of str(value)."""
    src, pre, suf = POS[pos]
    kind = env.choice("kind", ["int", "float", "list", "tuple", "dict", "obj", "sobj", "bytes", "exc", "sub"])
    if kind == "int":
        v = env.choice("i", [0, 1, -17, 123456789012345678901])
        s = "%d" % v
    elif kind == "float":
        v, s = 1.5, "1.5"
    elif kind == "list":
        v, s = ["<", "'"], "['<', \"'\"]"
    elif kind == "tuple":
        v, s = (1, "&"), "(1, '&')"
    elif kind == "dict":
        v, s = {"<": '"'}, "{'<': '\"'}"
    elif kind == "obj":
        v, s = Fmt(), "<o&'\">"
    elif kind == "sobj":
        s = env.str("x", 2)
        v = Str(s)
    elif kind == "bytes":
        v, s = b"<'", "b\"<'\""
    elif kind == "exc":
        v, s = ValueError("<a>"), "<a>"
    else:
        class S(str):
            pass
        s = "<&>"
        v = S(s)
    out = load(env, src).render(ctx(v))
    env.eq(out, pre + esc(s) + suf, "non-string value %s at %s" % (kind, pos))


TPOS = {
    "text": ("<a>hello</a>", "<a>", "</a>"),
    "attr": ('<a title="hello"></a>', '<a title="', '"></a>'),
    "nested": ("<a><b>hello</b></a>", "<a><b>", "</b></a>"),
    "ws": ("<a> hello\n</a>", "<a> ", "\n</a>"),
}


def h_trans(env, pos, n):
    """The translation returned by gettext is a value: escaped once."""
    src, pre, suf = TPOS[pos]
    x = env.str("x", n)
    out = load(env, src, translatable=True).render(dict(gettext=lambda m: x))
    env.eq(out, pre + esc(x) + suf, "translated text is escaped once at " + pos)


def h_transmixed(env, n):
    x = env.str("x", n)
    y = env.str("y", n)
    out = load(env, '<a title="hi $y">hi $y there</a>', translatable=True).render(dict(gettext=lambda m: x, y=y))
    ex, ey = esc(x), esc(y)
    env.eq(out, '<a title="' + ex + " " + ey + '">' + ex + " " + ey + " " + ex + "</a>", "translated text next to a value")


def h_def(env, n):
    """The result of a def is markup: not escaped again, however it is used."""
    x = env.str("x", n)
    src = ('<d><py:def function="f(v)"><i>$v</i></py:def>$f(x)<b py:content="f(x)"></b><u py:replace="f(x)"></u>'
           '<p py:with="r = f(x)">$r</p></d>')
    out = load(env, src).render(dict(x=x))
    i = "<i>" + esc(x) + "</i>"
    env.eq(out, "<d>" + i + "<b>" + i + "</b>" + i + "<p>" + i + "</p></d>", "def results are not escaped twice")


def h_func(env, which, n):
    """The escape used by templates, called directly: Markup and __html__ pass."""
    R = env.mod("tonnikala.runtime.python").TonnikalaRuntime
    H = env.mod("tonnikala.helpers")
    x = env.str("x", n)
    if which == "helper":
        env.eq(H.escape(x), esc(x), "helpers.escape")
    else:
        env.eq(R.escape(x), esc(x), "runtime.escape")


def cases(tier):
    deep = tier == "thorough"
    top = 5 if deep else 3
    for pos in POS:
        for n in range(0, top + 1):
            if n < top or pos in ("text", "attr", "attrmixed", "content", "attrsdict", "defarg") or deep:
                yield dict(name="str/%s/%d" % (pos, n), fn="h_str", args=dict(pos=pos, n=n), cost=5 ** n, samples=4)
        for kind in ("markup", "html"):
            yield dict(name="%s/%s" % (kind, pos), fn="h_markup", args=dict(pos=pos, kind=kind, n=2), samples=2)
        yield dict(name="other/%s" % pos, fn="h_other", args=dict(pos=pos), cost=30, samples=12)
    for pos in LIT:
        yield dict(name="literal/%s" % pos, fn="h_literal", args=dict(pos=pos, n=2))
    yield dict(name="literal/mixed", fn="h_notmarkup", args=dict(n=1))
    yield dict(name="two", fn="h_repeat", args=dict(n=2 if deep else 1), cost=100)
    yield dict(name="plus", fn="h_plus", args={}, cost=30)
    yield dict(name="def", fn="h_def", args=dict(n=2), cost=30)
    for pos in TPOS:
        yield dict(name="trans/%s" % pos, fn="h_trans", args=dict(pos=pos, n=2), cost=30)
    yield dict(name="trans/mixed", fn="h_transmixed", args=dict(n=1), cost=30)
    yield dict(name="func/helper", fn="h_func", args=dict(which="helper", n=4 if deep else 3), cost=100)
    yield dict(name="func/runtime", fn="h_func", args=dict(which="runtime", n=4 if deep else 3), cost=100)
