"""C16 Message extraction and runtime translation agree."""
import io
from props.common import esc, load, UNICODE, CS, named

BOUNDS = ("texts and attribute values of 0..4 (thorough 0..5; 3 at most places) characters of all of Unicode, at %d places, alone, twice and around expressions; translations of "
          "0..2 characters of all of Unicode, as text and in each attribute; expressions in every spelling of %d, with whitespace of 0..2 characters around them")
OUTSIDE = ("the lines at which messages are reported (they are not exact: a message in an attribute or behind whitespace is reported at line 1), messages of calls that are written in expressions, a gettext that returns markup, imported templates (each template is extracted from by itself), parts "
           "of a template that are not rendered (their messages are extracted, but not requested)")
ASSUMPTIONS = []

TEXT = UNICODE.minus(CS.of([60, 38, 36]))
SPACE = named("space")
WORD = TEXT.minus(SPACE)
QUOTED = TEXT.minus(CS.of([34]))
WS = CS.of([32, 9, 10, 12, 13, 0xa0, 0x2003, 0x85, 0x1f])
ALNUM = CS.rng(48, 57) | CS.rng(65, 90) | CS.rng(97, 122)
# behind an expression without braces
FOLLOW = TEXT.minus(CS.of([40, 91, 46, 95, 123]) | named("alnum") | CS.rng(0x300, 0x10ffff))

# template, output; {} is the text
PLACES = {
    "root": ("<a>{}</a>", "<a>{}</a>"),
    "nested": ("<a><b>{}</b><i></i></a>", "<a><b>{}</b><i></i></a>"),
    "beside": ("<a><b></b>{}<i></i></a>", "<a><b></b>{}<i></i></a>"),
    "if": ("<a><b py:if='one'>{}</b></a>", "<a><b>{}</b></a>"),
    "if-element": ("<a><py:if test='one'>{}</py:if></a>", "<a>{}</a>"),
    "for": ("<a><b py:for='i in [1]'>{}</b></a>", "<a><b>{}</b></a>"),
    "with": ("<a><py:with vars='gettext2=1'>{}</py:with></a>", "<a>{}</a>"),
    "strip": ("<a><b py:strip=''>{}</b></a>", "<a>{}</a>"),
    "strip0": ("<a><b py:strip='not one'>{}</b></a>", "<a><b>{}</b></a>"),
    "def": ("<a><py:def function='f'>{}</py:def>$f()</a>", "<a>{}</a>"),
    "def-args": ("<a><py:def function='f(x)'><b>{}</b></py:def>${f(1)}</a>", "<a><b>{}</b></a>"),
    "def-in-def": ("<a><py:def function='f'><py:def function='g'>{}</py:def>$g()</py:def>$f()</a>", "<a>{}</a>"),
    "top-def": ("<py:def function='f'>{}</py:def>", ""),
    "block": ("<a><py:block name='b'>{}</py:block></a>", "<a>{}</a>"),
    "block-attribute": ("<a><b py:block='b'>{}</b></a>", "<a><b>{}</b></a>"),
    "block-in-block": ("<a><py:block name='b'><py:block name='c'>{}</py:block></py:block></a>", "<a>{}</a>"),
    "title": ("<title>{}</title>", "<title>{}</title>"),
    "textarea": ("<a><textarea>{}</textarea></a>", "<a><textarea>{}</textarea></a>"),
    "script-beside": ("<a><script>x</script>{}</a>", "<a><script>x</script>{}</a>"),
    "in-style": ("<a><p><style>y</style></p>{}</a>", "<a><p><style>y</style></p>{}</a>"),
    "code": ("<a><?python x = 1?>{}</a>", "<a>{}</a>"),
    "xmlns": ("<a xmlns:py='x'>{}</a>", "<a>{}</a>"),
    "attribute-beside": ("<a b='c$one'>{}</a>", '<a b="c1">{}</a>'),
}
# text that is not translated
NEVER = {
    "script": ("<a><script>{}</script></a>", "<a><script>{}</script></a>"),
    "style": ("<a><style>{}</style></a>", "<a><style>{}</style></a>"),
    "script-expression": ("<a><script>{};$one;{}</script></a>", "<a><script>{};1;{}</script></a>"),
    "script-strip": ("<a><script py:strip='one'>{}</script></a>", "<a>{}</a>"),
    "script-attribute": ("<a><script src='x'>{}</script></a>", '<a><script src="x">{}</script></a>'),
    "script-title": ("<a title=''><style type='t' class='$one'>{}</style></a>", '<a title=""><style type="t" class="1">{}</style></a>'),
    "script-attrs": ("<a><script py:attrs=\"{'b': one}\">{}</script></a>", '<a><script b="1">{}</script></a>'),
    "script-upper": ("<a><SCRIPT>{}</SCRIPT></a>", "<a><script>{}</script></a>"),
    "script-for": ("<a><p><style py:for='x in [1]'>{}</style></p></a>", "<a><p><style>{}</style></p></a>"),
    "script-def2": ("<a><script py:def='g(x)'>{}</script>${g(x=1)}</a>", "<a><script>{}</script></a>"),
    "script-root": ("<script>{}</script>", "<script>{}</script>"),
    "script-if": ("<a><script py:if='one'>{}</script></a>", "<a><script>{}</script></a>"),
    "script-block": ("<a><py:block name='b'><style>{}</style></py:block></a>", "<a><style>{}</style></a>"),
    "script-def": ("<a><py:def function='f'><script>{}</script></py:def>$f()</a>", "<a><script>{}</script></a>"),
    "comment": ("<a><!--{}--></a>", "<a><!--{}--></a>"),
    "dropped": ("<a><!--!{}--></a>", "<a></a>"),
    "attribute": ('<a b="{}"/>', '<a b="{}"></a>'),
    "attribute-name": ('<a titles="{}"/>', '<a titles="{}"></a>'),
    "attribute-class": ('<a class="{}" title2="x"/>', '<a class="{}" title2="x"></a>'),
    "replaced": ('<a><b py:replace="one">{}</b></a>', "<a>1</a>"),
    "content": ('<a><b py:content="one">{}</b></a>', "<a><b>1</b></a>"),
}
ATTRIBUTES = ["title", "alt", "placeholder", "value", "caption"]
ATTRIBUTE_PLACES = {
    "plain": ('<a {0}="{1}"/>', '<a {0}="{1}"></a>'),
    "first": ('<a {0}="{1}">y</a>', None),
    "void": ('<a><img b="x" {0}="{1}"/></a>', '<a><img b="x" {0}="{1}" /></a>'),
    "strip0": ('<a><i py:strip="not one" {0}="{1}"></i></a>', '<a><i {0}="{1}"></i></a>'),
    "block": ('<a><i py:block="b" {0}="{1}"></i></a>', '<a><i {0}="{1}"></i></a>'),
    "def": ('<a><i py:def="f" {0}="{1}"></i>$f()</a>', '<a><i {0}="{1}"></i></a>'),
    "for": ('<a><i py:for="x in [1]" {0}="{1}"></i></a>', '<a><i {0}="{1}"></i></a>'),
    "attrs": ('<a py:attrs="{{\'b\': one}}" {0}="{1}"></a>', '<a {0}="{1}" b="1"></a>'),
    "upper": ('<a {2}="{1}"></a>', '<a {0}="{1}"></a>'),
    "script": ('<a><script {0}="{1}"></script></a>', '<a><script {0}="{1}"></script></a>'),
}
EXPRESSIONS = ["${@one@}", "${@f(@one)@}", "$f(@one)", "${@[one,@one][0]@}", "${@'a'@}", "${@f('a'@'b')}", "${@one if one else@'x'@}", "$one", "${@\"'\"@}", "${@f(lambda x:@x)(1)}", "${@f(x_=one)@}", "${@'''a@'''@}"]
BOUNDS = BOUNDS % (len(PLACES) + len(NEVER) + len(ATTRIBUTES) * len(ATTRIBUTE_PLACES), len(EXPRESSIONS))


def extract(env, src):
    E = env.mod("tonnikala.i18n")
    found = []
    for m in E.TonnikalaExtractor()("the/file.tk", E.Options(), io.StringIO(src)):
        found.append(m.msgid)
    return found


class BytesFile(object):
    """A file that is opened in binary mode."""

    def __init__(self, data):
        self.data = data

    def read(self, n=-1):
        data, self.data = self.data, b""
        return data


def h_bytes(env, n, lines):
    """A source that is read as bytes, by the extractors for lingua and for Babel."""
    s = env.str("s", n, WORD.minus(CS.of([34])).minus(CS.rng(0xd800, 0xdfff)))
    src = "<a>" + "\n" * lines + '<b title="' + s + '"></b>' + "\n" * lines + s + "!</a>"
    E = env.mod("tonnikala.i18n")
    data = env.utf8(src)
    found = [(m.location[1], m.msgid) for m in E.TonnikalaExtractor()("the/file.tk", E.Options(), BytesFile(data))]
    env.check(len(found) == 2, "two messages are extracted")
    found.sort(key=lambda m: len(m[1]))
    for (line, m), want in zip(found, [s, s + "!"]):
        env.eq(m, want, "the message is the text of the template")
    babel = [(i[0], i[1], i[2]) for i in E.extract_tonnikala(BytesFile(data), [], [], {})]
    env.check(len(babel) == 2, "two messages are extracted for Babel")
    babel.sort(key=lambda m: len(m[2][0]))
    for (line, name, ids), (l, m) in zip(babel, found):
        env.check(line == l and name == "gettext" and len(ids) == 1, "the same messages are extracted for Babel")
        env.eq(ids[0], m, "the same messages are extracted for Babel")


def partition(s):
    """The whitespace in front, the message, and the whitespace behind."""
    i = 0
    while i < len(s) and s[i].isspace():
        i += 1
    j = len(s)
    while j > i and s[j - 1].isspace():
        j -= 1
    return s[:i], s[i:j], s[j:]


class Translator(object):
    def __init__(self, table=None):
        self.requested = []
        self.table = table

    def __call__(self, msg):
        self.requested.append(msg)
        if self.table is None:
            return msg
        return self.table[len(self.requested) - 1]


def f(*a, **k):
    return (a + tuple(k.values()))[0]


def distinct(messages):
    out = []
    for m in messages:
        if not [x for x in out if x == m]:
            out.append(m)
    return out


def context(**kw):
    c = dict(one=1, f=f)
    c.update(kw)
    return c


def same_set(env, a, b, msg):
    a, b = distinct(a), distinct(b)
    env.check(len(a) == len(b), msg)
    for x in a:
        env.check(bool([y for y in b if x == y]), msg)


def agree(env, src, messages, output, render=None):
    """messages: what is to be extracted and requested, in order; output(list of translations) what is to be rendered."""
    render = render or (lambda t, c: t.render(c))
    t = load(env, src, translatable=True)
    found = extract(env, src)
    for m in found:
        env.check(partition(m)[1] == m and len(m) > 0, "a message has no whitespace around it")
    same_set(env, found, messages, "the messages of the template are extracted")
    tr = Translator()
    out = render(t, context(gettext=tr))
    same_set(env, tr.requested, found, "the extracted messages are requested")
    env.eq(out, output(messages), "with the identity the texts are rendered")
    env.eq(render(t, context()), output(messages), "without gettext the texts are rendered")
    env.eq(render(load(env, src, translatable=False), context()), output(messages), "untranslated texts")
    return t, render


def translated(env, t, render, messages, output, n):
    table = [env.strs("t%d" % i, 0 if i == 0 else n, n, UNICODE) for i in range(len(messages))]
    tr = Translator(table)
    out = render(t, context(gettext=tr))
    env.eq(out, output(table), "the translations are rendered, escaped")


def put(template, text):
    return text.join(template.split("{}")) if len(template.split("{}")) < 3 else template.split("{}")[0] + text + template.split("{}")[1] + text + template.split("{}")[2]


def h_text(env, place, n, tr):
    src, out = PLACES[place]
    s = " message\n" if tr else env.str("s", n, TEXT)
    pre, msg, post = partition(s)
    messages = [msg] if len(msg) else []

    def output(ms):
        body = pre + esc(ms[0]) + post if ms else pre + post
        return put(out, body) if "{}" in out else out

    if place == "top-def":
        found = extract(env, put(src, s))
        same_set(env, found, messages, "the messages of a def are extracted")
        return
    t, r = agree(env, put(src, s), messages, output)
    if tr and messages:
        translated(env, t, r, messages, output, tr)


def h_never(env, place, n):
    src, out = NEVER[place]
    dom = TEXT
    if place.startswith("comment") or place == "dropped":
        dom = TEXT.minus(CS.of([45, 33, 62]))
    if place.startswith("attribute"):
        dom = QUOTED
    s = env.str("s", n, dom)
    body = esc(s) if place.startswith("attribute") else s

    def output(ms):
        return put(out, body) if "{}" in out else out
    if place.startswith("script-") and place != "script-expression" or place in ("script", "style"):
        env.reach("cdata")
    t, r = agree(env, put(src, s), [], output)


def h_attribute(env, attr, place, n, tr):
    src, out = ATTRIBUTE_PLACES[place]
    s = " message\n" if tr else env.str("s", n, QUOTED)
    pre, msg, post = partition(s)
    messages = [msg] if len(msg) else []

    def fill(template, value):
        a, b = template.replace("{0}", attr).replace("{2}", attr.upper()).replace("{{", "{").replace("}}", "}").split("{1}")
        return a + value + b
    if place == "first":
        messages = messages + ["y"]

    def output(ms):
        v = (pre + esc(ms[0]) + post) if len(msg) else pre + post
        if place == "first":
            return fill('<a {0}="{1}">', v) + esc(ms[-1]) + "</a>"
        return fill(out, v)
    t, r = agree(env, fill(src, s), messages, output)
    if tr and messages:
        translated(env, t, r, messages, output, tr)


def h_mixed(env, kind, n, m, tr=0):
    """Text around an expression: each piece is a message of its own."""
    a = " one " if tr else env.str("a", n, QUOTED)
    b = "\ntwo" if tr else env.str("b", m, [FOLLOW.inter(QUOTED)] + [QUOTED] * m if m else QUOTED)
    pa, pb = partition(a), partition(b)
    src = a + "$one" + b
    messages = [p[1] for p in (pa, pb) if len(p[1])]

    def body(ms):
        ms = list(ms)
        x = pa[0] + (esc(ms.pop(0)) if len(pa[1]) else "") + pa[2]
        y = pb[0] + (esc(ms.pop(0)) if len(pb[1]) else "") + pb[2]
        return x + "1" + y

    if kind == "text":
        src, output = "<i>" + src + "</i>", lambda ms: "<i>" + body(ms) + "</i>"
    elif kind == "children":
        src = "<i>" + a + "<b>" + b + "</b></i>"

        def children(ms):
            ms = list(ms)
            x = pa[0] + (esc(ms.pop(0)) if len(pa[1]) else "") + pa[2]
            y = pb[0] + (esc(ms.pop(0)) if len(pb[1]) else "") + pb[2]
            return "<i>" + x + "<b>" + y + "</b></i>"
        output = children
    else:
        src, output = "<i " + kind + '="' + src + '"></i>', lambda ms: "<i " + kind + '="' + body(ms) + '"></i>'
    t, r = agree(env, src, messages, output)
    if tr:
        translated(env, t, r, messages, output, tr)


def h_dollar(env, where):
    """Doubled dollars and entities are what they stand for in the message."""
    a = env.str("a", 1, WORD.minus(CS.of([34]) | ALNUM))
    piece = env.choice("piece", ["$$", "$$$$", "&amp;", "&lt;", "&#38;", "&quot;", "$ ", "$1", "&nbsp;x"])
    means = {"$$": "$", "$$$$": "$$", "&amp;": "&", "&lt;": "<", "&#38;": "&", "&quot;": '"', "$ ": "$ ", "$1": "$1", "&nbsp;x": "\xa0x"}[piece]
    b = env.str("b", 1, WORD.minus(CS.of([34, 95, 123, 40, 91, 46]) | ALNUM))
    msg = a + means + b
    if where == "text":
        t, r = agree(env, "<a>" + a + piece + b + "</a>", [msg], lambda ms: "<a>" + esc(ms[0]) + "</a>")
    else:
        t, r = agree(env, "<a " + where + '="' + a + piece + b + '"></a>', [msg], lambda ms: "<a " + where + '="' + esc(ms[0]) + '"></a>')


def h_expression(env, kind, where):
    """Extraction succeeds whatever the expressions are."""
    spec = EXPRESSIONS[kind]
    expr = ""
    i = 0
    for part in spec.split("@"):
        if i:
            expr = expr + env.concrete(env.strs("w%d" % i, 0, 2, CS.of([32, 9] if kind == 6 else [32, 10])) if i < 4 else " ")
        expr = expr + part
        i += 1
    src = "<a>x " + expr + " y</a>" if where == "text" else '<a b="x" title=\'x ' + expr + " y'></a>"
    if where != "text" and "'" in expr:
        src = '<a b="x" title="x ' + expr + ' y"></a>'
        if '"' in expr:
            return
    t = load(env, src, translatable=True)
    tr = Translator()
    t.render(context(gettext=tr))
    found = extract(env, src)
    same_set(env, found, ["x", "y"], "the messages around an expression are extracted")
    same_set(env, tr.requested, found, "the extracted messages are requested")


def h_two(env, n, tr):
    """The same and different messages in one template."""
    a = "a" if tr else env.str("a", 1, WORD)
    b = "bc"[:n] if tr else env.str("b", n, WORD)
    src = "<a title='t'><b>" + a + "</b> <i>" + b + " </i>" + "\n" + a + "</a>"
    messages = ["t", a, b, a] if n else ["t", a, a]

    def output(ms):
        m = list(ms)
        t = m.pop(0)
        x = m.pop(0)
        y = m.pop(0) if n else ""
        return '<a title="' + esc(t) + '"><b>' + esc(x) + "</b> <i>" + esc(y) + " </i>\n" + esc(m.pop(0)) + "</a>"
    t, r = agree(env, src, messages, output)
    if tr:
        translated(env, t, r, messages, output, tr)


def h_extended(env, n):
    """A template and the one it extends."""
    a = env.str("a", n, TEXT)
    b = env.str("b", 1, WORD)
    base = "<html>" + a + "<py:block name='x'>old</py:block><py:block name='z'> same</py:block></html>"
    child = "<py:extends href='base'><py:block name='x'>" + b + "<i alt='q'></i></py:block></py:extends>"
    L = env.mod("tonnikala.loader")

    class OtherLoader(L.Loader):
        def load(self, name):
            return L.Loader(translatable=True).load_string(base)
    t = OtherLoader(translatable=True).load_string(child)
    tr = Translator()
    out = t.render(context(gettext=tr))
    pre, msg, post = partition(a)
    env.eq(out, "<html>" + esc(a) + esc(b) + '<i alt="q"></i> same</html>', "with the identity the texts are rendered")
    found = extract(env, child)
    same_set(env, found, [b, "q"], "the messages of the child are extracted")
    basic = extract(env, base)
    same_set(env, basic, ([msg] if len(msg) else []) + ["old", "same"], "the messages of the extended template are extracted")
    same_set(env, tr.requested, found + [m for m in basic if not m == "old"] + (["old"] if b == "old" or msg == "old" else []), "the messages of both that are rendered are requested")


def cases(tier):
    deep = tier == "thorough"

    def case(name, fn, cost, **args):
        return dict(name=name, fn=fn, args=args, cost=cost, samples=6)
    for p in sorted(PLACES):
        for n in range(0, 6 if deep else (5 if p in ("root", "block") else 4)):
            yield case("text/%s/%d" % (p, n), "h_text", 10 * 9 ** n, place=p, n=n, tr=0)
        for n in range(1, 5 if deep else 3):
            if p != "top-def":
                yield case("translation/%s/%d" % (p, n), "h_text", 10 * 5 ** n, place=p, n=0, tr=n)
    for p in sorted(NEVER):
        for n in range(0, 5 if deep else 4):
            yield case("never/%s/%d" % (p, n), "h_never", 10 * 3 ** n, place=p, n=n)
    for i, a in enumerate(ATTRIBUTES):
        for j, p in enumerate(sorted(ATTRIBUTE_PLACES)):
            for n in range(0, 5 if deep else 4 if j % 2 else 3):
                yield case("attribute/%s/%s/%d" % (a, p, n), "h_attribute", 10 * 9 ** n, attr=a, place=p, n=n, tr=0)
            for n in range(1, 4 if deep else 2):
                yield case("attribute-translation/%s/%s/%d" % (a, p, n), "h_attribute", 10 * 5 ** n, attr=a, place=p, n=n, tr=n)
    for k in ["text", "children"] + ATTRIBUTES:
        for n in range(0, 3):
            for m in range(0, 3):
                if deep or n + m < 4:
                    yield case("mixed/%s/%d%d" % (k, n, m), "h_mixed", 10 * 9 ** (n + m), kind=k, n=n, m=m)
        yield case("mixed-translation/" + k, "h_mixed", 300, kind=k, n=0, m=0, tr=1)
    for n in range(1, 4 if deep else 3):
        for lines in range(0, 3):
            yield case("bytes/%d/%d" % (n, lines), "h_bytes", 10 * 9 ** n, n=n, lines=lines)
    for w in ["text", "title", "value"]:
        yield case("dollar/" + w, "h_dollar", 30, where=w)
    for i in range(len(EXPRESSIONS)):
        for w in ("text", "title"):
            if i == 8 and w == "title":
                continue
            yield case("expression/%d/%s" % (i, w), "h_expression", 30, kind=i, where=w)
    for n in range(0, 3):
        yield case("two/%d" % n, "h_two", 30, n=n, tr=0)
        yield case("two-translation/%d" % n, "h_two", 30, n=n, tr=1)
        yield case("extended/%d" % n, "h_extended", 30, n=n)
