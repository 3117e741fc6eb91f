"""C02 Static template content is reproduced faithfully."""
from props.common import esc, load, UNICODE, CS

BOUNDS = ("static text, attribute values, comments and script/style content of every length 0..3 (thorough 0..5) over all of Unicode "
          "minus the characters that begin markup there, one markup-significant character at every position, every decimal and hexadecimal "
          "character reference of up to 3 digits, every HTML 4 entity name (but lang and rang, which HTML 5 changed), every void element")
OUTSIDE = ("duplicate attributes, character references 128..159 (which browsers remap) and to surrogates, CDATA sections, "
           "whitespace outside the root element (dropped), a dollar sign written as a character reference (interpolated as well)")
ASSUMPTIONS = []

TEXT = UNICODE.minus(CS.of([60, 38, 36]))
NOREF = UNICODE.minus(CS.of([60, 38, 36]) | CS.of(range(48, 58)) | CS.of(range(65, 91)) | CS.of(range(97, 123)) | CS.of([35]))

TPOS = {
    "root": ("<a>", "</a>"),
    "nested": ("<a><b>", "</b></a>"),
    "between": ("<a><b></b>", "<i></i></a>"),
    "title": ("<html><title>", "</title></html>"),
    "textarea": ("<p><textarea>", "</textarea></p>"),
    "pre": ("<pre>", "</pre>"),
    "deep": ("<a><b><c><d><e>", "</e></d></c></b></a>"),
    "attrs": ('<a x="1" y=\'2\'>', "</a>"),
}
# control elements around the text: they vanish from the output
CPOS = {
    "if": ('<a><py:if test="True">', "</py:if></a>", "<a>", "</a>"),
    "if2": ('<a py:if="one">', "</a>", "<a>", "</a>"),
    "for": ('<a><py:for each="i in [1, 2]"><i>', "</i></py:for></a>", "<a>", "</a>"),
    "block": ('<a><py:block name="b">', "</py:block></a>", "<a>", "</a>"),
    "def": ('<a><py:def function="f">', "</py:def>$f()</a>", "<a>", "</a>"),
    "with": ('<a><py:with vars="x = 1">', "</py:with></a>", "<a>", "</a>"),
    "strip": ('<a><b py:strip="">', "</b></a>", "<a>", "</a>"),
    "strip0": ('<a><b py:strip="one == 2">', "</b></a>", "<a><b>", "</b></a>"),
    "mixed": ('<a>$one', "$one</a>", "<a>1", "1</a>"),
    "mixed2": ('<a>${one}', "${one}<b/></a>", "<a>1", "1<b></b></a>"),
    "xmlns": ('<a xmlns:py="http://x">', "</a>", "<a>", "</a>"),
}
CTX = dict(one=1)


def h_text(env, pos, n, tr):
    pre, suf = TPOS[pos]
    s = env.str("s", n, TEXT)
    out = load(env, pre + s + suf, translatable=tr).render(CTX)
    env.eq(out, pre.replace("'", '"') + esc(s) + suf, "static text at " + pos)


def h_ctext(env, pos, n, tr):
    pre, suf, opre, osuf = CPOS[pos]
    # after $one the text must not continue the expression
    dom = TEXT
    if pos.startswith("mixed"):
        dom = [TEXT.minus(CS.of([40, 91, 46, 95, 123]) | ALNUM)] + [TEXT] * n
    s = env.str("s", n, dom)
    out = load(env, pre + s + suf, translatable=tr).render(CTX)
    body = esc(s)
    if pos == "for":
        body = "<i>" + body + "</i><i>" + body + "</i>"
    env.eq(out, opre + body + osuf, "static text in " + pos)


ALNUM = CS.rng(128, 0x10ffff) | CS.of(range(48, 58)) | CS.of(range(65, 91)) | CS.of(range(97, 123))

QUOTES = {
    "double": ('"', '"', UNICODE.minus(CS.of([34, 38, 36]))),
    "single": ("'", "'", UNICODE.minus(CS.of([39, 38, 36]))),
    "none": ("", "", CS.rng(33, 0x10ffff).minus(CS.of([34, 38, 36, 39, 60, 61, 62, 96, 47]))),
}
APOS = {
    "only": ("<a b=%s></a>", '<a b="', '"></a>'),
    "first": ("<a b=%s c=x></a>", '<a b="', '" c="x"></a>'),
    "second": ("<a c=x b=%s></a>", '<a c="x" b="', '"></a>'),
    "void": ("<a><img b=%s c=x></a>", '<a><img b="', '" c="x" /></a>'),
    "novalue": ("<a d b=%s></a>", '<a d b="', '"></a>'),
    "control": ('<a b=%s py:if="one"></a>', '<a b="', '"></a>'),
    "dynamic": ('<a z="$one" b=%s></a>', '<a b="', '" z="1"></a>'),
    "title": ("<a title=%s></a>", '<a title="', '"></a>'),
    "newline": ("<a\n c=x\n b=%s\n></a>", '<a c="x" b="', '"></a>'),
}


def h_attr(env, pos, q, n, tr):
    src, pre, suf = APOS[pos]
    o, c, dom = QUOTES[q]
    s = env.str("s", n, dom)
    if q == "none":
        # whitespace ends an unquoted value
        env.assume(s.strip() == s and len(s.split()) <= 1)
    out = load(env, src.replace("%s", o + s + c), translatable=tr).render(CTX)
    env.eq(out, pre + esc(s) + suf, "attribute value at %s, %s quotes" % (pos, q))


def h_comment(env, n, dom, ctl):
    s = env.str("s", n, UNICODE.minus(CS.of([62])) if dom == "nogt" else UNICODE.minus(CS.of([45])))
    if dom != "nogt":
        env.assume(not s.startswith(">"))
    src = "<a>x<!--" + s + "-->$one</a>"
    if ctl:
        src = '<a><py:if test="one">x<!--' + s + "-->$one</py:if></a>"
    out = load(env, src).render(CTX)
    if s.strip().startswith("!"):
        env.reach("dropped")
        env.eq(out, "<a>x1</a>", "comments starting with ! are dropped")
    else:
        env.reach("kept")
        env.eq(out, "<a>x<!--" + s + "-->1</a>", "comments are verbatim")


def h_rootcomment(env, n):
    s = env.str("s", n, UNICODE.minus(CS.of([62, 33])))
    env.assume(s[:1].strip() != "" or True)
    out = load(env, "<!--" + s + "--><a/>").render(CTX)
    env.eq(out, "<!--" + s + "--><a></a>", "comment before the root element")


def h_cdata(env, el, n, tr, mixed):
    s = env.str("s", n, UNICODE.minus(CS.of([36])))
    env.assume("</" not in s)
    if mixed:
        s2 = env.str("t", 1, UNICODE.minus(CS.of([36, 60, 40, 91, 46, 95, 123]) | ALNUM))
        out = load(env, "<a><" + el + ">" + s + "$one" + s2 + "</" + el + "><b>&lt;</b></a>", translatable=tr).render(CTX)
        env.eq(out, "<a><" + el + ">" + s + "1" + s2 + "</" + el + "><b>&lt;</b></a>", "script/style content with an expression")
    else:
        out = load(env, "<a><" + el + ">" + s + "</" + el + "><b>&lt;</b></a>", translatable=tr).render(CTX)
        env.eq(out, "<a><" + el + ">" + s + "</" + el + "><b>&lt;</b></a>", "script/style content is verbatim")


def num(digits, base):
    v = 0
    for c in digits:
        v = v * base + "0123456789abcdef".index(c.lower())
    return v


def h_charref(env, kind, n, where):
    """Character references, in text and in attribute values."""
    if kind == "dec":
        d = env.str("d", n, CS.of(range(48, 58)))
        ref = "&#" + d + ";"
        base = 10
    else:
        d = env.str("d", n, CS.of(range(48, 58)) | CS.of(range(97, 103)) | CS.of(range(65, 71)))
        ref = ("&#x" if kind == "hex" else "&#X") + d + ";"
        base = 16
    # evaluated for each digit string
    ds = env.concrete(d)
    v = num(ds, base)
    env.assume(v >= 32 and v != 36 and not 127 <= v < 160 and not 0xd800 <= v < 0xe000)
    if where == "text":
        out = load(env, "<a>x" + ref.replace(d, ds) + "y</a>").render(CTX)
        env.eq(out, "<a>x" + esc(chr(v)) + "y</a>", "character reference in text")
    else:
        out = load(env, '<a b="x' + ref.replace(d, ds) + 'y"></a>').render(CTX)
        env.eq(out, '<a b="x' + esc(chr(v)) + 'y"></a>', "character reference in an attribute")


ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "nbsp": "\xa0", "eacute": "\xe9", "copy": "\xa9", "euro": "\u20ac", "hellip": "\u2026",
       "Auml": "\xc4", "auml": "\xe4", "alpha": "\u03b1", "ensp": "\u2002", "zwj": "\u200d", "yuml": "\xff", "frac12": "\xbd", "there4": "\u2234"}


def h_entity(env, where, n):
    """Named entities with arbitrary neighbours."""
    name = env.choice("name", sorted(ENT))
    x = env.str("x", n, TEXT.minus(CS.of([34])))
    y = env.str("y", n, TEXT.minus(CS.of([34])))
    body = esc(x) + esc(ENT[name]) + esc(y)
    if where == "text":
        out = load(env, "<a>" + x + "&" + name + ";" + y + "</a>").render(CTX)
        env.eq(out, "<a>" + body + "</a>", "entity in text")
    elif where == "two":
        out = load(env, "<a>&" + name + ";" + x + "&amp;lt;" + y + "&" + name + ";</a>").render(CTX)
        env.eq(out, "<a>" + esc(ENT[name]) + esc(x) + "&amp;lt;" + esc(y) + esc(ENT[name]) + "</a>", "several entities in text")
    else:
        out = load(env, '<a b="' + x + "&" + name + ";" + y + '"></a>').render(CTX)
        env.eq(out, '<a b="' + body + '"></a>', "entity in an attribute")


def h_amp(env, where):
    """An ampersand that begins no reference is itself."""
    x = env.str("x", 1, TEXT.minus(CS.of([34])))
    y = env.str("y", 1, NOREF.minus(CS.of([34])) if where == "text" else CS.of([32, 10, 9]))
    if where == "text":
        out = load(env, "<a>" + x + "&" + y + "</a>").render(CTX)
        env.eq(out, "<a>" + esc(x) + "&amp;" + esc(y) + "</a>", "bare ampersand in text")
    else:
        out = load(env, '<a b="' + x + "&" + y + '"></a>').render(CTX)
        env.eq(out, '<a b="' + esc(x) + "&amp;" + esc(y) + '"></a>', "bare ampersand in an attribute")


def h_all_entities(env):
    """Every HTML 4 entity name decodes to its character."""
    names = [k for k in sorted(env.mod("html.entities").name2codepoint) if k not in ("lang", "rang")]
    cps = env.mod("html.entities").name2codepoint
    name = env.choice("name", names)
    out = load(env, "<a>&" + name + ';<i b="&' + name + ';"></i></a>').render(CTX)
    c = esc(chr(cps[name]))
    env.eq(out, "<a>" + c + '<i b="' + c + '"></i></a>', "every named entity")


DOCTYPES = {
    "<!DOCTYPE html>": "<!DOCTYPE html>",
    "<!doctype html>": "<!DOCTYPE html>",
    "<!Doctype html>": "<!DOCTYPE html>",
    "<!DOCTYPE HTML>": "<!DOCTYPE HTML>",
    "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\">":
        "<!DOCTYPE html PUBLIC '-//W3C//DTD XHTML 1.0 Strict//EN' 'http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd'>",
    "<!DOCTYPE html SYSTEM \"about:legacy-compat\">": "<!DOCTYPE html SYSTEM 'about:legacy-compat'>",
}


def h_doctype(env):
    src = env.choice("doctype", sorted(DOCTYPES))
    ws = env.str("ws", 1, CS.of([32, 10, 9]))
    x = env.str("x", 1, TEXT.minus(CS.of([34, 39])))
    out = load(env, src + ws + "<html>" + x + "</html>").render(CTX)
    exp = DOCTYPES[src] + "<html>" + esc(x) + "</html>"
    if '"' in src:
        # either kind of quotes, any amount of white space
        out = out.replace("'", '"').replace("  ", " ")
        exp = exp.replace("'", '"')
    env.eq(out, exp, "doctype")


EMPTY = ["br", "hr", "input", "area", "base", "col", "img", "link", "meta", "param", "keygen", "source"]
VOIDCLOSED = ["embed", "track", "wbr"]


def h_empty(env):
    el = env.choice("el", EMPTY)
    form = env.choice("form", ["<%s>", "<%s/>", "<%s />"])
    y = env.str("y", 1, TEXT)
    out = load(env, "<a>" + form % el + y + "</a>").render(CTX)
    env.eq(out, "<a><" + el + " />" + esc(y) + "</a>", "void elements have no end tag")


def h_empty_attr(env):
    el = env.choice("el", EMPTY)
    form = env.choice("form", ['<%s b="', "<%s c='x' d b=\""])
    v = env.str("v", 1, UNICODE.minus(CS.of([34, 38, 36])))
    end = env.choice("end", ['">', '"/>', '" />'])
    out = load(env, "<a>" + form % el + v + end + "z</a>").render(CTX)
    env.eq(out, "<a>" + (form % el).replace("'", '"') + esc(v) + '" />z</a>', "void elements with attributes")


def h_nonvoid(env):
    el = env.choice("el", ["a", "div", "p", "script", "style", "textarea", "title", "i", "option", "td", "x-y", "svg:g"])
    form = env.choice("form", ["<%s></%s>", "<%s/>", "<%s />"])
    src = form % ((el, el) if form.count("%s") == 2 else el)
    if el in ("script", "style") and form.count("%s") == 1:
        env.assume(False)
    y = env.str("y", 1, TEXT)
    out = load(env, "<r>" + src + y + "</r>").render(CTX)
    env.eq(out, "<r><" + el + "></" + el + ">" + esc(y) + "</r>", "other elements keep their end tag")


def h_order(env, n):
    """Static attributes keep their order."""
    names = []
    src = ""
    for i in range(n):
        c = env.choice("n%d" % i, ["z", "a", "m", "id", "data-q"])
        if c in names:
            env.assume(False)
        names.append(c)
    v = env.str("v", 1, UNICODE.minus(CS.of([34, 38, 36]))) * n
    src = exp = "<a"
    for i in range(n):
        src += " " + names[i] + '="' + v[i] + '"'
        exp += " " + names[i] + '="' + esc(v[i]) + '"'
    out = load(env, src + "></a>").render(CTX)
    env.eq(out, exp + "></a>", "order of static attributes")


def h_doc(env):
    """One document with static content of all kinds side by side."""
    t = env.str("t", 1, TEXT)
    a = env.str("a", 1, UNICODE.minus(CS.of([34, 38, 36])))
    c = env.str("c", 1, UNICODE.minus(CS.of([62, 33, 32, 9, 10, 11, 12, 13])))
    s = env.str("s", 1, UNICODE.minus(CS.of([60, 36])))
    src = ("<html>\n<head>\n<title>" + t + "</title><!--" + c + "-->\n<script>" + s + '</script></head>\n <body class="' + a + '">\n'
           + t + "<br>" + s.replace("&", "+") + "<p>  " + t + "</p>\n</body></html>")
    out = load(env, src).render(CTX)
    e = esc(t)
    exp = ("<html>\n<head>\n<title>" + e + "</title><!--" + c + "-->\n<script>" + s + '</script></head>\n <body class="' + esc(a) + '">\n'
           + e + "<br />" + esc(s.replace("&", "+")) + "<p>  " + e + "</p>\n</body></html>")
    env.eq(out, exp, "document")


def cases(tier):
    deep = tier == "thorough"
    top = 4 if deep else 2
    for tr in (False, True):
        t = "/tr" if tr else ""
        for pos in TPOS:
            for n in range(0, top + 1):
                yield dict(name="text/%s/%d%s" % (pos, n, t), fn="h_text", args=dict(pos=pos, n=n, tr=tr), cost=5 ** n, samples=4)
        for pos in CPOS:
            yield dict(name="ctext/%s%s" % (pos, t), fn="h_ctext", args=dict(pos=pos, n=top, tr=tr), cost=25, samples=4)
        for pos in APOS:
            for q in QUOTES:
                for n in range(0 if q != "none" else 1, top + 1):
                    yield dict(name="attr/%s/%s/%d%s" % (pos, q, n, t), fn="h_attr", args=dict(pos=pos, q=q, n=n, tr=tr), cost=5 ** n, samples=4)
        for el in ("script", "style"):
            for mixed in (False, True):
                yield dict(name="cdata/%s/%d%s" % (el, mixed, t), fn="h_cdata", args=dict(el=el, n=top + 1, tr=tr, mixed=mixed), cost=25)
    for n in range(0, top + 3):
        for dom in ("nogt", "nodash"):
            for ctl in (False, True):
                yield dict(name="comment/%s/%d/%d" % (dom, n, ctl), fn="h_comment", args=dict(n=n, dom=dom, ctl=ctl), cost=3 ** n)
    yield dict(name="rootcomment", fn="h_rootcomment", args=dict(n=2))
    for kind in ("dec", "hex", "HEX"):
        for n in ((2, 3, 4) if deep else (2, 3)):
            for where in ("text", "attr"):
                if kind != "dec" and n > 2 and not deep:
                    continue
                yield dict(name="charref/%s/%d/%s" % (kind, n, where), fn="h_charref", args=dict(kind=kind, n=n, where=where), cost=500, max_steps=100000)
    for where in ("text", "two", "attr"):
        yield dict(name="entity/" + where, fn="h_entity", args=dict(where=where, n=1), cost=300)
    for where in ("text", "attr"):
        yield dict(name="amp/" + where, fn="h_amp", args=dict(where=where), cost=20)
    yield dict(name="entities", fn="h_all_entities", args={}, cost=250)
    yield dict(name="doctype", fn="h_doctype", args={}, cost=20)
    yield dict(name="empty", fn="h_empty", args={}, cost=100)
    yield dict(name="emptyattr", fn="h_empty_attr", args={}, cost=100)
    yield dict(name="nonvoid", fn="h_nonvoid", args={}, cost=100)
    yield dict(name="order", fn="h_order", args=dict(n=3 if not deep else 4), cost=500)
    yield dict(name="doc", fn="h_doc", args={}, cost=600)
