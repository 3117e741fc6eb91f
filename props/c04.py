"""C04 A braced or bracketed Python expression ends at its matching bracket."""
from props.common import load, UNICODE, CS

BOUNDS = ("expressions $" "{...}, $name(...), $name[...] with 0..4 (thorough 0..6) arbitrary characters in code, in strings of every "
          "quote style and prefix, in comments, and in f-strings with nested fields, followed by arbitrary text; at the template level every text of "
          "up to 4 (thorough 5) characters of an alphabet of brackets, quotes, backslash, comment, newline, letter, digit, operator, after each opening")
OUTSIDE = ("carriage returns and NUL within expressions; backslash outside strings and digits other than in the small alphabet; "
           "whether the expression is valid Python is decided by the Python parser, not by this check")
ASSUMPTIONS = ["symx/pytok.py stands in for CPython's C tokenizer on symbolic text; tools/tokdiff.py compares the two, "
               "and every counterexample and a sample of the paths are replayed on the real tokenizer"]
PRELOAD = ["tonnikala.loader", "tonnikala.languages.python"]

CTRL = CS.rng(0, 31) | CS.of([127])
CODE = UNICODE.minus(CTRL | CS.of(map(ord, "\\#'\"0123456789"))) | CS.of([10, 9])
STR = UNICODE.minus(CS.of([0, 13]))
TEXT = UNICODE.minus(CS.of([0, 13]))
FSTR = UNICODE.minus(CS.of([0, 13]) | CS.of(map(ord, "N#0123456789\n")) | CTRL)
PAIR = {"(": ")", "[": "]", "{": "}"}
PREFIX = ("r", "u", "b", "f", "br", "rb", "fr", "rf")


class Doubt(Exception):
    """A character in code that the Python tokenizer may reject on its own."""


def prefix(text, i):
    """Is the quote at i preceded by an f-string prefix?"""
    j = i
    while j > 0 and (text[j - 1] in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" or text[j - 1] > "\x7f" or text[j - 1] in "0123456789"):
        if i - j > 2:
            return False
        j -= 1
    w = text[j:i]
    if len(w) == 1:
        return w in "fF"
    if len(w) == 2:
        return (w[0] in "fF" and w[1] in "rR") or (w[0] in "rR" and w[1] in "fF")
    return False


def quote_size(text, i):
    q = text[i]
    if text[i + 1:i + 3] == q + q:
        return 3
    return 1


def skip_string(text, i):
    """i: the opening quote.  Index after the closing quote, or None."""
    n = len(text)
    q = text[i]
    size = quote_size(text, i)
    i += size
    while i < n:
        ch = text[i]
        if ch == "\\":
            i += 2
            continue
        if size == 1 and ch == "\n":
            return None
        if ch == q and text[i:i + size] == q * size:
            return i + size
        i += 1
    return None


def skip_fstring(text, i):
    n = len(text)
    q = text[i]
    size = quote_size(text, i)
    return fliteral(text, i + size, q, size, False)


def fliteral(text, i, q, size, spec):
    """The literal part of an f-string, or a format specification within one."""
    n = len(text)
    while i < n:
        ch = text[i]
        if ch == "\n" and spec:
            raise Doubt()
        if ch == "\n" and size == 1:
            return None
        if ch == "\\":
            nx = text[i + 1:i + 2]
            if nx == "N":
                raise Doubt()
            i += 1 if nx == "{" or nx == "}" else 2
            continue
        if ch == q and text[i:i + size] == q * size:
            if spec:
                return None
            return i + size
        if ch == "{":
            if not spec and text[i + 1:i + 2] == "{":
                i += 2
                continue
            i = field(text, i)
            if i is None:
                return None
            j = i - 1
            if text[j] == ":":
                # a format specification: literal text up to the closing brace
                i = fliteral(text, i, q, size, True)
                if i is None:
                    return None
            continue
        if ch == "}":
            if spec:
                return i + 1
            if text[i + 1:i + 2] == "}":
                i += 2
                continue
            return None
        i += 1
    return None


def field(text, i):
    """A replacement field starting at i: index after its closing brace, or after its colon."""
    return code(text, i, True)


def code(text, i, infield=False):
    """text[i] is an opening bracket.  Index after its matching bracket, None if there is none."""
    n = len(text)
    stack = []
    while i < n:
        ch = text[i]
        if ch in "([{":
            stack.append(PAIR[ch])
        elif ch in ")]}":
            if stack[-1] != ch:
                return None
            stack.pop()
            if not stack:
                return i + 1
        elif infield and ch == ":" and len(stack) == 1:
            return i + 1
        elif ch == "#":
            while i < n and text[i] != "\n":
                i += 1
        elif ch in "'\"":
            if prefix(text, i):
                i = skip_fstring(text, i)
            else:
                i = skip_string(text, i)
            if i is None:
                return None
            continue
        elif ch == "\\" or (ch < " " and ch not in "\n\t") or ch in "\x7f0123456789":
            raise Doubt()
        i += 1
    return None


def unbraced(text):
    """The longest unbraced expression at the start of text ('$name...'): its end, or None."""
    n = len(text)
    i = 1
    while i < n and isword(text[i]):
        i += 1
    while i < n:
        if text[i] == "." and i + 1 < n and isword(text[i + 1]) and not isdigit(text[i + 1]):
            i += 2
            while i < n and isword(text[i]):
                i += 1
        elif text[i] in "([":
            i = code(text, i)
            if i is None:
                return None
        else:
            break
    return i


def isword(ch):
    return ch == "_" or ch.isalnum()


def isdigit(ch):
    return ch.isdecimal()


def parsed(env, text):
    P = env.mod("tonnikala.languages.python")
    E = env.mod("tonnikala.runtime.exceptions").TemplateSyntaxError
    try:
        return P.parse_expression(text, 0)
    except E:
        return None


def balanced(src):
    """Do the brackets of the Python source match, by the reference scanner?"""
    return code("(" + src + "\n)", 0) == len(src) + 3


def compare(env, text, end):
    r = parsed(env, text)
    if r is None:
        env.reach("error")
        env.check(end is None, "the matching bracket is found")
        return
    if end is None:
        # the braces match but other brackets do not: the Python parser has to reject it
        env.reach("other brackets")
        env.check(not balanced(r.expression), "an expression without matching bracket is rejected")
        return
    env.reach("ok")
    env.eq(r.string, text[:end], "the expression extends to its matching bracket")
    if text[1] == "{":
        env.eq(r.expression, text[2:end - 1], "the source is what is between the braces")
    else:
        env.eq(r.expression, text[1:end], "the source is the expression")


def h_brace(env, pre, n, suf, dom, tail):
    s = env.str("s", n, DOMS[dom])
    t = env.str("t", tail, TEXT) if tail else ""
    text = "${" + pre + s + suf + "}" + t
    try:
        end = code(text, 1)
    except Doubt:
        env.assume(False)
    compare(env, text, end)


def h_name(env, pre, n, suf, dom, tail):
    s = env.str("s", n, DOMS[dom])
    t = env.str("t", tail, TEXT) if tail else ""
    text = "$x" + pre + s + suf + t
    try:
        end = unbraced(text)
    except Doubt:
        env.assume(False)
    compare(env, text, end)


DOMS = {"code": CODE, "str": STR, "fstr": FSTR,
        "comment": UNICODE.minus(CS.of([0, 13]))}

# the contents of the template are realized: one path for each text over the alphabet
SMALL = CS.of(map(ord, "()[]{}'\"\\#\n a1,"))
MID = CS.of(map(ord, "()[]{}'#\na"))


class Any(object):
    """Can be called and subscripted without end; renders as nothing."""

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, i):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __str__(self):
        return ""

    def __hash__(self):
        return 1


def h_load(env, pre, n, suf, dom):
    """Loading raises TemplateSyntaxError and nothing else exactly if there is no matching bracket or no valid expression."""
    s = env.concrete(env.str("s", n, SMALL if dom == "small" else MID))
    text = pre + s + suf
    E = env.mod("tonnikala.runtime.exceptions").TemplateSyntaxError
    try:
        end = code(text, 1) if text[1] == "{" else unbraced(text)
    except Doubt:
        env.assume(False)
    ok = None
    if end is not None:
        src = text[2:end - 1].strip() if text[1] == "{" else text[1:end]
        ok = valid(src)
    try:
        t = load(env, "<a>" + text.replace("<", "&lt;") + "@</a>")
    except E:
        env.reach("rejected")
        # a valid expression with a matching bracket must be accepted, unless the rest has a problem
        env.check(not ok or has_dollar(text, end), "a complete expression is accepted")
        return
    env.reach("accepted")
    env.check(end is not None, "an expression without matching bracket is rejected")
    env.check(ok, "what is accepted is a Python expression")
    try:
        out = t.render(dict(x=Any(), a=Any()))
    except Exception:
        return
    rest = text[end:]
    env.check(out.endswith(rest.replace("'", "&#39;").replace('"', "&#34;") + "@</a>"), "what follows the expression is text")


def has_dollar(text, end):
    return "$" in text[end:]


def valid(src):
    import ast
    try:
        ast.parse(src + "\n", mode="eval")
    except (SyntaxError, ValueError):
        return False
    return True


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 5 if deep else 4):
        yield dict(name="brace/code/%d" % n, fn="h_brace", args=dict(pre="", n=n, suf="", dom="code", tail=0), cost=8 ** n)
    for pre, suf in (("x(", ")"), ("{", "}"), ("[{'", "'}]"), ("x ", " y")):
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            yield dict(name="brace/in %s/%d" % (pre, n), fn="h_brace", args=dict(pre=pre, n=n, suf=suf, dom="code", tail=1 if n < 3 else 0), cost=8 ** n)
    for p in ("", "r", "b", "u", "Rb"):
        for q in ("'", '"', "'''", '"""'):
            top = (5 if deep else 4) if p == "" else (3 if deep else 2)
            for n in range(0, top + 1):
                yield dict(name="brace/str %s%s/%d" % (p, q, n), fn="h_brace",
                           args=dict(pre=p + q, n=n, suf=q, dom="str", tail=1), cost=5 ** n)
                if n in (2, 3):
                    yield dict(name="name/str %s%s/%d" % (p, q, n), fn="h_name",
                               args=dict(pre="(" + p + q, n=n, suf=q + ")", dom="str", tail=0), cost=5 ** n)
    for q in ("'", '"', "'''"):
        for p in ("f", "fr", "RF"):
            top = (5 if deep else 4 if q == "'" else 3) if p == "f" else (4 if deep else 2)
            for n in range(0, top + 1):
                yield dict(name="brace/fstr %s%s/%d" % (p, q, n), fn="h_brace",
                           args=dict(pre=p + q, n=n, suf=q, dom="fstr", tail=0), cost=12 ** n)
        for n in range(0, 3 if not deep else 4):
            yield dict(name="brace/ffield %s/%d" % (q, n), fn="h_brace",
                       args=dict(pre="f" + q + "{x", n=n, suf="}" + q, dom="fstr", tail=0), cost=12 ** n)
            yield dict(name="brace/fspec %s/%d" % (q, n), fn="h_brace",
                       args=dict(pre="f" + q + "{x:", n=n, suf="}" + q, dom="fstr", tail=0), cost=12 ** n)
            yield dict(name="name/ffield %s/%d" % (q, n), fn="h_name",
                       args=dict(pre="[f" + q + "{", n=n, suf="}" + q + "]", dom="fstr", tail=0), cost=12 ** n)
    for n in range(0, 4 if not deep else 6):
        yield dict(name="brace/comment/%d" % n, fn="h_brace", args=dict(pre="x #", n=n, suf="\n", dom="comment", tail=1), cost=5 ** n)
        yield dict(name="name/comment/%d" % n, fn="h_name", args=dict(pre="(x #", n=n, suf="\n)", dom="comment", tail=1), cost=5 ** n)
    for n in range(0, 4 if not deep else 6):
        for o, cl in (("(", ")"), ("[", "]"), ("[(", ")]"), ("({", "})")):
            yield dict(name="name/code %s/%d" % (o, n), fn="h_name", args=dict(pre=o, n=n, suf=cl, dom="code", tail=0), cost=8 ** n)
        yield dict(name="name/open/%d" % n, fn="h_name", args=dict(pre="(", n=n, suf="", dom="code", tail=0), cost=8 ** n)
    for pre in ("(a)", ".y[a]", "(a)(b)"):
        for n in (1, 2, 3):
            yield dict(name="name/after %s/%d" % (pre, n), fn="h_name", args=dict(pre=pre, n=n, suf="", dom="code", tail=0), cost=9 ** n)
    for pre in ("${", "$x(", "$x["):
        for n in range(0, 4 if not deep else 5):
            yield dict(name="load %s/%d" % (pre, n), fn="h_load", args=dict(pre=pre, n=n, suf="", dom="small" if n < 3 or deep else "mid"), cost=20 ** n, samples=8)
            cl = {"{": "}", "(": ")", "[": "]"}[pre[-1]]
            yield dict(name="load %s%s/%d" % (pre, cl, n), fn="h_load", args=dict(pre=pre, n=n, suf=cl, dom="small" if n < 3 or deep else "mid"), cost=20 ** n, samples=8)
