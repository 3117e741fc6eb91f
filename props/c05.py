"""C05 The JavaScript lexer tiles its input and finds expression ends."""
from props.common import UNICODE, CS

BOUNDS = ("tiling: every text of 0..2 (thorough 0..3) characters over all of Unicode, of 3 characters over an alphabet of 25 JavaScript-significant "
          "ones, and 1 (thorough 2) characters around fragments that open strings, comments, regular expressions, numbers and keywords, from every "
          "start offset; extents: 0..3 (thorough 0..4) arbitrary characters within strings, comments and regular expressions and 0..3 (thorough 0..4) "
          "characters of that alphabet in code, for ${...}, $name(...) and $name[...], with text after them")
OUTSIDE = ("texts that are not lexically valid JavaScript (extents only): unterminated strings, mismatched brackets, characters that no token "
           "starts with; template literals; a slash after } or ++ or --, and keywords used as property names, where the lexical context does not "
           "tell division from a regular expression")
ASSUMPTIONS = []
PRELOAD = ["tonnikala.loader", "tonnikala.languages.javascript"]

SMALL = CS.of(map(ord, "()[]{}'\"/*\\+=;.,!x1 \n$_i\xe9"))
WS = " \t\n\x0b\x0c\xa0"
PAIR = {"(": ")", "[": "]", "{": "}"}
KEYWORDS = ("break case catch class const continue debugger default delete do else enum export extends finally for function if import in "
            "instanceof new return switch throw try typeof var void while with").split()
VALUES = ("null", "true", "false", "this", "super")


def h_tile(env, pre, n, suf, dom):
    s = env.str("s", n, DOMS[dom])
    text = pre + s + suf
    start = env.choice("start", [0, 1, len(pre), len(text)] if n else list(range(0, len(text) + 1)))
    L = env.mod("tonnikala.languages.javascript.jslex")
    lexer = L.JsLexer()
    parts = []
    for kind, tok in lexer.lex(text, start):
        env.check(len(tok) > 0, "no token is empty")
        parts.append(tok)
    env.eq("".join(parts), text[start:], "the tokens make up the text")


class Doubt(Exception):
    """Not JavaScript, or not decidable lexically."""


def idstart(ch):
    return ch == "_" or ch == "$" or ch.isalpha()


def idchar(ch):
    return idstart(ch) or ch in "0123456789"


def scan(text, i):
    """text[i] is an opening bracket: index after its matching bracket, None if there is none."""
    n = len(text)
    stack = []
    prev = "op"         # may a regular expression start here?  op: yes, val: no, dunno
    while i < n:
        ch = text[i]
        if ch in "([{":
            stack.append(PAIR[ch])
            prev = "op"
            i += 1
        elif ch in ")]}":
            if stack[-1] != ch:
                raise Doubt()
            stack.pop()
            i += 1
            if not stack:
                return i
            prev = "dunno" if ch == "}" else "val"
        elif ch in "'\"":
            j = i + 1
            while True:
                if j >= n:
                    raise Doubt()
                if text[j] == ch:
                    break
                if text[j] == "\n" or text[j] in "\r\u2028\u2029":
                    raise Doubt()
                j += 2 if text[j] == "\\" else 1
            i = j + 1
            prev = "val"
        elif ch == "/":
            nx = text[i + 1:i + 2]
            if nx == "/":
                while i < n and text[i] not in "\n":
                    if text[i] in "\r\u2028\u2029":
                        raise Doubt()
                    i += 1
            elif nx == "*":
                i += 2
                while i < n and text[i:i + 2] != "*/":
                    i += 1
                if i >= n:
                    raise Doubt()
                i += 2
            elif prev == "dunno":
                raise Doubt()
            elif prev == "val":
                i += 2 if nx == "=" else 1
                prev = "op"
            else:
                i = regex(text, i)
                prev = "val"
        elif ch in "0123456789":
            i = number(text, i)
            prev = "val"
        elif ch == ".":
            if text[i + 1:i + 2] != "" and text[i + 1] in "0123456789":
                i = number(text, i)
                prev = "val"
            else:
                prev = "op"
                i += 1
        elif ch == "+" or ch == "-":
            if text[i + 1:i + 2] == ch:
                i += 2
                prev = "dunno"
            else:
                i += 1
                prev = "op"
        elif ch in "*%&|^!~?:=<>;,":
            i += 1
            prev = "op"
        elif ch in " \t\n":
            i += 1
        elif idstart(ch):
            j = i + 1
            while j < n and idchar(text[j]):
                if not idchar(text[j]):
                    break
                j += 1
            w = text[i:j]
            prev = "val"
            if w in KEYWORDS:
                prev = "op"
                k = i
                while k > 0 and text[k - 1] in " \n":
                    k -= 1
                if k > 0 and text[k - 1] == ".":
                    raise Doubt()
            elif j < n and text[j] == "\\":
                raise Doubt()
            i = j
        else:
            raise Doubt()
    return None


def number(text, i):
    """Digits, a fraction; exponents and radix prefixes are left out."""
    n = len(text)
    j = i
    while j < n and text[j] in "0123456789":
        j += 1
    if j < n and text[j] == ".":
        j += 1
        while j < n and text[j] in "0123456789":
            j += 1
    if j < n and (idchar(text[j]) or text[j] == "." and j > i and text[j - 1] == "."):
        raise Doubt()
    if text[i] == "0" and j > i + 1:
        # legacy octal: only if all digits are octal
        for d in text[i + 1:j]:
            if d not in "01234567":
                raise Doubt()
    return j


def regex(text, i):
    n = len(text)
    j = i + 1
    incls = False
    while True:
        if j >= n:
            raise Doubt()
        ch = text[j]
        if ch in "\n\r\u2028\u2029":
            raise Doubt()
        if ch == "\\":
            if text[j + 1:j + 2] == "" or text[j + 1] in "\n\r\u2028\u2029":
                raise Doubt()
            j += 2
            continue
        if incls:
            if ch == "]":
                incls = False
        elif ch == "[":
            incls = True
        elif ch == "/":
            break
        j += 1
    j += 1
    while j < n and idchar(text[j]):
        if text[j] == "$" or text[j] == "_" or text[j] > "\x7f":
            raise Doubt()
        j += 1
    return j


def extent(text):
    """End of the template expression at the start of text, None if a bracket is not closed."""
    if text[1] == "{":
        return scan(text, 1)
    n = len(text)
    i = 2
    while i < n:
        if text[i] == "_" or text[i].isalnum():
            i += 1
        else:
            break
    while i < n:
        if text[i] == "." and i + 1 < n and (text[i + 1] == "_" or text[i + 1].isalnum()) and not text[i + 1].isdecimal():
            i += 2
            while i < n and (text[i] == "_" or text[i].isalnum()):
                i += 1
        elif text[i] in "([":
            i = scan(text, i)
            if i is None:
                return None
        else:
            break
    return i


def h_extent(env, pre, n, suf, dom, tail):
    s = env.str("s", n, DOMS[dom])
    t = env.str("t", tail, UNICODE) if tail else ""
    text = pre + s + suf + t
    try:
        end = extent(text)
    except Doubt:
        env.assume(False)
    J = env.mod("tonnikala.languages.javascript")
    E = env.mod("tonnikala.runtime.exceptions").TemplateSyntaxError
    try:
        r = J.parse_expression(text, 0)
    except E:
        env.reach("error")
        env.check(end is None, "the matching bracket is found")
        return
    env.check(end is not None, "an expression without matching bracket is rejected")
    env.reach("ok")
    env.eq(r.string, text[:end], "the expression extends to its matching bracket")
    env.eq(r.expression, text[2:end - 1] if text[1] == "{" else text[1:end], "source of the expression")


def h_split(env, pre, n, suf):
    """The template compiler uses these extents: text around an expression stays text."""
    s = env.str("s", n, DOMS["any"])
    text = "a " + pre + s + suf + " } b"
    try:
        end = extent(text[2:])
    except Doubt:
        env.assume(False)
    env.assume(end is not None)
    X = env.mod("tonnikala.expr")
    J = env.mod("tonnikala.languages.javascript")
    rest = text[2 + end:]
    for ch in rest:
        env.assume(ch != "$")
    node = X.handle_text_node(text, expr_parser=J.parse_expression)
    env.check(len(node.children) == 3, "text, expression, text")
    env.eq(node.children[0].text, "a ", "text before")
    env.eq(node.children[1].string, text[2:2 + end], "expression")
    env.eq(node.children[2].text, rest, "text after")


# JavaScript in templates: the compiled template holds the expression and the following text
TEMPLATES = [
    ("${x.replace(/'/g, \"}\")}", "x.replace(/'/g, \"}\")"),
    ("${x /* } */ + 1}", "x + 1"),
    ("${x // }\n}", "x"),
    ("${/[/}]}/.test(x)}", "/[/}]}/.test(x)"),
    ("${a / b} / {c}", "a / b"),
    ("$f(\")\", /\\)/)", "f(\")\", /\\)/)"),
    ("$f[']'](x)", "f[']'](x)"),
    ("${({'}': 1})['}']}", None),
    ("${this / 2}", None),
]


def h_template(env, k, pos):
    src, js = TEMPLATES[k]
    L = env.mod("tonnikala.loader")
    html = src.replace("'", "&#39;").replace('"', "&quot;")
    doc = "<a>" + src + "@@tail</a>" if pos == "text" else '<a b="' + html + '@@tail"></a>'
    out = L.JSLoader().load_string(doc)
    env.check('"@@tail' in out or '/ {c}@@tail' in out, "what follows the expression is text")
    if js is not None:
        env.check(js.replace('"', "'") in out.replace('"', "'").replace("\n", " "), "the expression is complete: " + js)


DOMS = {"any": UNICODE.minus(CS.of([13])), "small": SMALL, "noslash": UNICODE}


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 4 if deep else 3):
        yield dict(name="tile/%d" % n, fn="h_tile", args=dict(pre="", n=n, suf="", dom="any"), cost=30 ** n)
    yield dict(name="tile/small3", fn="h_tile", args=dict(pre="", n=3, suf="", dom="small"), cost=30 ** 3)
    for pre, suf in (("/", ""), ("a/", "/"), ("/", "/g"), ("'", "'"), ('"', ""), ("/*", "*/"), ("//", "\nx"), ("0", ""), ("1.", "e5"),
                     ("\\u00", "z"), ("retur", ""), ("/[", "]/"), ("a++", ""), ("this", ""), ("\n", "\n"), ("x=/a", "/ 2")):
        for n in (1, 2) if deep else (1,):
            yield dict(name="tile/%s.%s/%d" % (pre, suf, n), fn="h_tile", args=dict(pre=pre, n=n, suf=suf, dom="any"), cost=40 ** n)
    top = 5 if deep else 4
    for q in ("'", '"'):
        for n in range(0, top):
            yield dict(name="str %s/%d" % (q, n), fn="h_extent", args=dict(pre="${" + q, n=n, suf=q + "}", dom="any", tail=1 if n < 3 else 0), cost=6 ** n)
            if n < 4:
                yield dict(name="name str %s/%d" % (q, n), fn="h_extent", args=dict(pre="$x(" + q, n=n, suf=q + ")", dom="any", tail=0), cost=6 ** n)
                yield dict(name="name item %s/%d" % (q, n), fn="h_extent", args=dict(pre="$x[" + q, n=n, suf=q + "]", dom="any", tail=0), cost=6 ** n)
    for pre in ("${", "${x+", "${(", "${x.y(a,", "${in ", "${return "):
        cl = ")" if pre[-1] in "(," else ""
        for n in range(1, top):
            yield dict(name="regex %s/%d" % (pre, n), fn="h_extent", args=dict(pre=pre + "/", n=n, suf="/" + cl + "}", dom="any", tail=0), cost=7 ** n)
    for pre in ("${x", "${x)", "${f(1)", "${x[0]", "${'a'", "${this", "${1", "${\xe9", "${010", "${null"):
        if pre == "${x)":
            continue
        for n in range(0, 3):
            yield dict(name="div %s/%d" % (pre, n), fn="h_extent", args=dict(pre=pre + "/", n=n, suf="} /", dom="small", tail=0), cost=7 ** n)
    for n in range(0, top):
        yield dict(name="comment/%d" % n, fn="h_extent", args=dict(pre="${x /*", n=n, suf="*/ + 1}", dom="any", tail=1 if n < 3 else 0), cost=5 ** n)
        yield dict(name="line/%d" % n, fn="h_extent", args=dict(pre="${x //", n=n, suf="\n}", dom="any", tail=1 if n < 3 else 0), cost=5 ** n)
        yield dict(name="name comment/%d" % n, fn="h_extent", args=dict(pre="$x(/*", n=n, suf="*/)", dom="any", tail=0), cost=5 ** n)
    for pre in ("${", "$x(", "$x[", "$x.y(a)"):
        for n in range(0, 4 if not deep else 5):
            yield dict(name="code %s/%d" % (pre, n), fn="h_extent", args=dict(pre=pre, n=n, suf="", dom="small", tail=0), cost=14 ** n)
            cl = {"{": "}", "(": ")", "[": "]"}.get(pre[-1])
            if cl and (n < 3 or deep and n < 4):
                yield dict(name="code %s%s/%d" % (pre, cl, n), fn="h_extent", args=dict(pre=pre, n=n, suf=cl, dom="small", tail=1 if n < 3 else 0), cost=14 ** n)
    for pre, suf in (("${", "}"), ("${'", "'}"), ("$x(", ")"), ("${/", "/}")):
        for n in (1, 2):
            yield dict(name="split %s/%d" % (pre, n), fn="h_split", args=dict(pre=pre, n=n, suf=suf), cost=20 ** n)
    for k in range(len(TEMPLATES)):
        for pos in ("text", "attr"):
            yield dict(name="template/%d/%s" % (k, pos), fn="h_template", args=dict(k=k, pos=pos), samples=2)
