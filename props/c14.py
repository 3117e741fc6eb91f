"""C14 Errors are located at the template line that caused them."""
from props.common import load, UNICODE, CS

BOUNDS = ("%d constructs that fail while rendering and %d that do not compile, behind every kind of preceding construct (thorough: every two of them), with gaps of "
          "0..2 characters at the marked places: all of Unicode where text may stand (8 characters in strings of Python code), spaces and newlines within tags and expressions")
OUTSIDE = ("carriage returns within expressions, newlines written as character references (a recorded finding), the column; "
           "errors of constructs of several lines are located at any of their lines")
ASSUMPTIONS = []

FILE = "the/template.tk"
TEXT = UNICODE.minus(CS.of([60, 38, 36, 62]))
# in attribute values of either quotes, comments, strings in expressions
SAFE = UNICODE.minus(CS.of([60, 38, 36, 62, 34, 39, 92, 45, 33, 123, 125, 63, 13, 0]) | CS.rng(0xd800, 0xdfff))
# in strings within Python code, which is parsed for each of them
FEW = CS.of([ord(c) for c in "a \n#;:\t\xe9"])
WS = CS.of([32, 10])
NL = CS.of([10])

# In all of these: @ is a gap of 0..2 of whitespace, % of newlines, _ whitespace of at least one character, ~ is text, ` is text in Python code, ^ the beginning of the failing expression, | the end of the failing construct.
BEFORE = {
    "nothing": "",
    "text": "~",
    "entity": "~&amp;~",
    "element": "<b>~</b>",
    "attribute": '<b c="~" d>~</b>',
    "attributes": "<b_c='~'@d=\"~\"/>",
    "tag": "<b_c='1'@\n>~</b@>",
    "unquoted": "<b_c=1_d/>",
    "comment": "<!--~-->",
    "dropped": "<!--!~-->",
    "expression": "${@one@}~x",
    "call": "$f(@one@)~x",
    "string": "${'''`'''}~x",
    "dollar": "$$~$$ ",
    "script": "<script>~$one ~</script>",
    "code": "<?python@\nx = '''`'''@?>",
    "if": '<b py:if="@one">~</b>',
    "else": '<b py:if="not one">~$fail()</b>',
    "for": '<b py:for="i in f([1,@2])">~$i </b>',
    "def": '<py:def_function="g(x)">~$fail()</py:def>',
    "with": '<b py:with="%z = f(one,@2); y = \'\'\'`\'\'\'%">~</b>',
    "block": '<py:block_name="bl">~</py:block>',
    "attrs": '<b py:attrs="{\'a\':@1}"@/>',
    "content": '<b py:content="@one">~</b>',
    "strip": '<b py:strip="@one">~</b>',
    "replace": '<b py:replace="@one">~</b>',
    "void": "<br/>~<img_c='~'>",
    "long": "~$one " * 2,
    "title": '<b title="~$one ~">~</b>',
}

RUNTIME = {
    "unbraced": "$^fail()",
    "braced": "${@^fail()@}",
    "argument": "${@f(one,@^fail())}",
    "unbraced-argument": "$f(@one,@^fail())",
    "index": "$m[@^fail()@]",
    "later": "~$one ~${@^fail()}~$one",
    "undefined": "~${@^undefined}",
    "undefined-unbraced": "$^undefined ~",
    "missing": "${@^one.nope}",
    "zero": "~${@^one / zero}",
    "str": "${@^bad}",
    "str-unbraced": "~$^bad",
    "str-later": "~$one ~$^bad ~${one}",
    "str-multiline": "${@^[bad,@ one][0]}",
    "comprehension": "${@[^fail()@ for i in [1]]}",
    "lambda": "${@f((lambda:@^fail())())}",
    "attribute": '<b_c="~$^fail()"@/>',
    "attribute-braced": "<b_c='~${@^fail()}~'@/>",
    "attribute-only": '<b_c="${@^fail()}"@d="$one"/>',
    "attribute-str": '<b_c="${@^bad}"@/>',
    "attribute-str-multiline": '<b_c="${@^[bad,@ one][0]}"@/>',
    "attribute-str-mixed": '<b_c="~${@^bad}~"/>',
    "attribute-title": '<b_title="~${@^bad}~"/>',
    "attribute-second": '<b_a="~"@c=\'$^fail()\'/>',
    "attribute-unquoted": "<b_c=$^fail()></b>",
    "attribute-upper": "<b_C='@$^fail()'></b>",
    "if": '<b_py:if="@^fail()"@/>',
    "if-bool": '<b_py:if="@^bad"@/>',
    "if-element": '<py:if_test="@^bad">~</py:if>',
    "for": '<b_py:for="i in f(1,@^fail())"@/>',
    "for-iter": '<b_py:for="i in ^bad"@/>',
    "for-next": '<b_py:for="i in ^gen()"@/>',
    "for-element": '<py:for_each="i in ^bad">~</py:for>',
    "for-body": '<b_py:for="i in [1,@2]">~$^fail()</b>',
    "with": '<b_py:with="%^q = fail()%"@/>',
    "with-second": '<b_py:with="%q = f(1,@2); ^r = fail()"@/>',
    "vars": '<b_py:vars="%^q, r = 1"@/>',
    "vars-element": '<py:vars_names="%^q = fail()">~</py:vars>',
    "with-body": '<b_py:with="q = 1%">~${@^bad}</b>',
    "strip": '<b_py:strip="@^fail()"@/>',
    "strip-bool": '<b_py:strip="@^bad"@>~</b>',
    "content": '<b_py:content="@^fail()"@/>',
    "content-str": '<b_py:content="@^bad"@>~</b>',
    "replace": '<b_py:replace="@^fail()"@/>',
    "replace-str": '<b_py:replace="@^bad"@/>',
    "replace-element": '<py:replace_value="@^bad"@/>',
    "attrs": '<b_py:attrs="@^fail()"@/>',
    "attrs-bool": '<b_py:attrs="@^bad"@/>',
    "attrs-str": '<b_py:attrs="@^{\'a\': bad}"@/>',
    "def-default": '<b_py:def="h(y=1,@x=^fail())"@/>',
    "def": '<py:def_function="h(x)">~${@^x()}~</py:def>~${h(fail)}',
    "def-str": '<b_py:def="h(x)">~${@^x}~</b>~${h(@bad)}',
    "def-attribute": '<b_py:def="h"@ c="~${@^bad}">~</b>~${h()}',
    "block": '<py:block_name="bq">~${@^fail()}</py:block>',
    "block-str": '<b_py:block="bq"@ c="$^bad"/>',
    "block-nested": '<py:block_name="bq">~<py:block_name="br">~$^bad</py:block></py:block>',
    "code": "<?python@ ^fail()@?>",
    "code-newline": "<?python@\n^fail()\n?>",
    "code-second": "<?python\ny = 1@\nz = '''`'''\n^fail()\n?>",
    "code-def": "<?python@\ndef k():\n  ^return one / zero\n?>~${k()}",
    "script": "<script>~${@^fail()}</script>",
    "script-str": "<script>~$one ~$^bad</script>",
    "nested": '<a><b py:if="one">~<c py:for="i in [1]">~<d e="${@^bad}"/></c></b></a>',
    "all": '<b_py:for="i in [1]"@py:if="one"@py:with="q = 1"@py:strip="zero"@py:attrs="None"@c="${@^bad}">~</b>',
}

SYNTAX = {
    "unbraced-open": "^$f(@",
    "unbraced-mismatch": "^$f(@[)]|",
    "braced-open": "~^${@one",
    "braced-mismatch": "^${@(|}",
    "braced-string": "^${@'a",
    "braced-invalid": "${@^one one|}",
    "braced-empty": "^${@|}",
    "braced-operator": "${@^one +|}",
    "attribute-invalid": '<b_c="~${@^one one|}~"/>',
    "attribute-second": "<b_c='~'@d='${@^one one|}'/>",
    "attribute-open": "<b_c='~^${@one|'/>",
    "if": '<b_py:if="@^one one|"/>',
    "if-element": '<py:if_test="@^one one|">~</py:if>',
    "for": '<b_py:for="^i one|"/>',
    "for-invalid": '<b_py:for="^i in one one|"/>',
    "for-target": '<b_py:for="^f() in one|"/>',
    "with": '<b_py:with="%^q q|"/>',
    "with-second": '<b_py:with="%q = f(1,@2); ^r r|"/>',
    "def": '<b_py:def="^h h|"/>',
    "def-twice": '<b_py:def="^h(x, x)|"/>',
    "block": '<b_py:block="^h h|"/>',
    "block-keyword": '<py:block_name="^if|"/>',
    "strip": '<b_py:strip="@^one one|"/>',
    "content": '<b_py:content="@^one one|"/>',
    "replace": '<b_py:replace="@^one one|"/>',
    "attrs": '<b_py:attrs="@^one one|"/>',
    "unknown-attribute": '^<b_py:foo="1"|/>',
    "unknown-attribute-empty": '^<b_py:foo=""|/>',
    "unknown-attribute-novalue": '^<b_py:foo|/>',
    "unknown-element": "^<py:foo_a='1'|/>",
    "no-test": "^<py:if_a='1'|/>",
    "no-each": "^<py:for_each|/>",
    "no-function": "^<py:def|/>",
    "no-alias": "^<py:import_href='a'|/>",
    "alias": "<py:import_href='a'@alias='^1|'/>",
    "import-contents": "<py:import_href='a'@alias='q'>@^<b/>|</py:import>",
    "entity": "~^&nosuchentity;|~",
    "charref": "~^&#x110000;|~",
    "end-tag": "~^</b>|",
    "end-tag-mismatch": "<b>~^</c>|",
    "unclosed": "<b>~^</html>|",
    "marked-section": "~^<![CDATA[x]]|>",
    "doctype": "~^<!doctype|>",
    "code": "<?python@ ^one one|@?>",
    "code-newline": "<?python@\n^one one|\n?>",
    "code-second": "<?python\ny = 1@\nz = '''`'''\n^one one|\n?>",
    "code-indent": "<?python@\nif one:\n   x = 1\n ^y = 1|\n?>",
    "code-compile": "<?python@\n^break|\n?>",
    "lambda": "${@^lambda x, x: one|}",
    "keyword": "${@f(^a=1,@a=2|)}",
    "await": "~${@^(await one)|}",
    "text-outside": "</html>@^x|",
    "element-outside": "</html>@^<b>|</b>",
    "end-outside": "</html>@^</b>|",
    "two-roots": "</html>@^<!--x--><b/>|",
}
EXTENDS = {
    "text": "<py:extends href='x'>@^x~|</py:extends>",
    "element": "<py:extends_href='x'><py:def function='f'>~</py:def>@^<b>|</b></py:extends>",
    "code": "<py:extends_href='x'><py:block_name='f'>~</py:block>@^<?python x?>|</py:extends>",
    "if": "<py:extends_href='x'>@^<py:if_test='1'|/></py:extends>",
    "expression": "<py:extends_href='x'>@^$f|@</py:extends>",
    "attribute": "^<b_py:if='1'_py:extends='x'/>|",
    "def": "<py:extends_href='x'>@<py:def_function='^a b|'/>@</py:extends>",
    "block-body": "<py:extends_href='x'>@<py:block_name='a'>~${@^one one|}</py:block>@</py:extends>",
}
BOUNDS = BOUNDS % (len(RUNTIME), len(SYNTAX) + len(EXTENDS))

CHAMELEON = {
    "text": "~${@^fail()}",
    "str": "~$^bad",
    "attribute": '<b_c="~${@^bad}"@/>',
    "condition": '<b_tal:condition="@^fail()"@/>',
    "repeat": '<b_tal:repeat="i in ^bad"@/>',
    "content": '<b_tal:content="@^bad"@/>',
    "replace": '<b_tal:replace="@^fail()"@/>',
    "omit": '<b_tal:omit-tag="@^fail()"@/>',
    "attrs": '<b_tal:attrs="@^bad"@/>',
}
CHAMELEON_SYNTAX = {
    "text": "~${@^one one|}",
    "condition": '<b_tal:condition="@^one one|"@/>',
    "repeat": '<b_tal:repeat="^i i|"@/>',
    "omit": '<b_tal:omit-tag="@^one one|"@/>',
    "end-tag": "~^</b>|",
    "code": "~^<?python x?>|",
}
CBEFORE = ["nothing", "text", "entity", "attribute", "tag", "comment", "expression", "script", "dollar"]


class Boom(Exception):
    pass


class Bad(object):
    """Raises whatever is done with it."""

    def __init__(self, e):
        self.e = e

    def boom(self, *a):
        raise self.e

    __str__ = __bool__ = __iter__ = keys = items = __html__ = boom


class Builder(object):
    def __init__(self, env, longest):
        self.env = env
        self.longest = longest
        self.src = ""
        self.begin = self.end = None
        self.gaps = 0

    def lines(self):
        return 1 + self.src.count("\n")

    def gap(self, dom, least):
        # the first gaps are symbolic: the rest alternates
        self.gaps += 1
        if self.gaps > self.longest:
            return "\n" if self.gaps % 2 or dom is NL else " "
        name = "g%d" % self.gaps
        return self.env.strs(name, least, 2 if self.gaps == 1 else 1, dom)

    def add(self, spec, dom):
        run = ""
        for c in spec:
            if c not in "@%_~`^|":
                run += c
                continue
            self.src = self.src + run
            run = ""
            if c == "@":
                self.src = self.src + self.gap(WS, 0)
            elif c == "%":
                self.src = self.src + self.gap(NL, 0)
            elif c == "_":
                self.src = self.src + self.gap(WS, 1)
            elif c == "~":
                self.src = self.src + "." + self.gap(dom, 0) + "."
            elif c == "`":
                self.src = self.src + "." + self.gap(FEW, 0) + "."
            elif c == "^":
                self.begin = self.end = self.lines()
            else:
                self.end = self.lines()
        self.src = self.src + run


def frames(e):
    """The lines of the frames in the template, from the outermost."""
    tb = e.__traceback__
    out = []
    while tb is not None:
        if tb.tb_frame.f_code.co_filename == FILE:
            out.append(tb.tb_lineno)
        tb = tb.tb_next
    return out


EXPECTED = {"undefined": NameError, "undefined-unbraced": NameError, "missing": AttributeError, "zero": ZeroDivisionError, "vars": TypeError, "code-def": ZeroDivisionError}


def build(env, before, spec, after, first, gaps):
    b = Builder(env, gaps)
    if first:
        # in front of the root element
        b.add(first, SAFE)
    b.add("<html>", SAFE)
    b.gaps = 0
    # the gaps of the construct itself are the symbolic ones in one half of the cases
    for x in before:
        b.add(BEFORE[x], SAFE)
    b.add(spec, SAFE)
    b.add(after, SAFE)
    return b


def boom(e):
    raise e


class Fail(object):
    def __init__(self, e):
        self.e = e

    def __call__(self, *a):
        raise self.e


def make_context(e):
    def gen():
        raise e
        yield 1
    return dict(one=1, zero=0, f=lambda *a: a[0], m={}, fail=Fail(e), bad=Bad(e), gen=gen)


def h_runtime(env, before, kind, syntax, tr, first, gaps):
    spec = (RUNTIME if syntax == "tonnikala" else CHAMELEON)[kind]
    b = build(env, before, spec, " ~$one ~</html>", first, gaps)
    t = load(env, b.src, translatable=tr, syntax=syntax, filename=FILE)
    e = Boom("x")
    try:
        t.render(make_context(e))
    except Exception as caught:
        want = EXPECTED.get(kind)
        if want is None:
            env.check(caught is e, "the exception itself is raised")
        else:
            env.check(type(caught) is want, "an exception of the original type is raised")
        ls = frames(caught)
        env.check(len(ls) > 0, "a frame of the template is in the traceback")
        env.check(ls[-1] == b.begin, "the failing expression is in line %s of the template and not %s" % (b.begin, ls))
        return
    env.fail("no exception is raised")


def h_syntax(env, before, kind, table, tr, first, gaps):
    spec = dict(SYNTAX=SYNTAX, EXTENDS=EXTENDS, CHAMELEON=CHAMELEON_SYNTAX)[table][kind]
    if table == "EXTENDS":
        b = Builder(env, gaps)
        for x in before:
            b.add({"nothing": "", "text": "\n", "comment": "<!--~-->", "tag": "@<!--x-->@"}[x], SAFE)
        b.add(spec, SAFE)
    else:
        after = " ~$one ~</html>"
        if kind.endswith("open") or kind.endswith("string"):
            # nothing closes it
            after = "|</html>"
        b = build(env, before, spec, after, first, gaps)
    X = env.mod("tonnikala.runtime.exceptions")
    try:
        load(env, b.src, translatable=tr, filename=FILE, syntax="chameleon" if table == "CHAMELEON" else "tonnikala")
    except X.TemplateSyntaxError as e:
        env.check(e.filename == FILE, "the error has the name of the file")
        env.check(e.lineno is not None and b.begin <= e.lineno and e.lineno <= b.end,
                  "the offending construct is in lines %s to %s of the template and not %s" % (b.begin, b.end, e.lineno))
        ls = frames(e)
        env.check(len(ls) > 0 and ls[-1] == e.lineno, "the traceback ends at the line of the error")
        return
    env.fail("no error is raised")


FIRST = ["", "@<!--~-->@\n", "@<!DOCTYPE html>@"]


def h_charref(env, where):
    """A newline written as a character reference is not a line of the source."""
    ref = env.choice("ref", ["&#10;", "&#xA;", "&#32;", "&amp;", "&NewLine;"] if where == "attribute" else ["&#10;", "&#xA;", "&#32;", "&amp;"])
    env.known("newline-reference-" + where, ref in ("&#10;", "&#xA;", "&NewLine;"))
    src = "<html>\n" + ("<b c='" + ref + "$fail()'/>" if where == "attribute" else ref + "$fail()") + "</html>"
    e = Boom("x")
    try:
        load(env, src, filename=FILE).render(make_context(e))
    except Boom as caught:
        env.check(frames(caught)[-1] == 2, "the failing expression is in line 2 and not %s" % frames(caught))
        return
    env.fail("no exception is raised")


def cases(tier):
    deep = tier == "thorough"
    names = sorted(BEFORE)
    gaps = 3 if deep else 2

    def case(name, fn, cost, **args):
        return dict(name=name, fn=fn, args=args, cost=cost, samples=2)
    for kinds, fn, extra in ((sorted(RUNTIME), "h_runtime", dict(syntax="tonnikala")), (sorted(SYNTAX), "h_syntax", dict(table="SYNTAX"))):
        for n, k in enumerate(kinds):
            # the gaps of the construct, with each thing that may come before the root element
            for i, f in enumerate(FIRST):
                yield case("%s/%s/%d" % (fn[2:], k, i), fn, 30, before=[], kind=k, tr=i == 1, first=f, gaps=gaps + 1 if not f else 2, **extra)
            # each thing that may come before the construct
            for i, x in enumerate(names):
                if deep or (i + n) % 3 == 0 or x in ("text", "attribute", "tag"):
                    yield case("%s/%s/%s" % (fn[2:], k, x), fn, 20, before=[x], kind=k, tr=(i + n) % 5 == 0, first="", gaps=gaps, **extra)
            if deep:
                for i, x in enumerate(names):
                    y = names[(i * 7 + n) % len(names)]
                    yield case("%s/%s/%s+%s" % (fn[2:], k, x, y), fn, 20, before=[x, y], kind=k, tr=(i + n) % 5 == 0, first="", gaps=gaps, **extra)
    for k in sorted(EXTENDS):
        for x in ("nothing", "text", "comment", "tag"):
            yield case("extends/%s/%s" % (k, x), "h_syntax", 20, before=[x], kind=k, table="EXTENDS", tr=False, first="", gaps=gaps)
    for x in CBEFORE:
        for k in sorted(CHAMELEON):
            yield case("chameleon/%s/%s" % (k, x), "h_runtime", 20, before=[x], kind=k, syntax="chameleon", tr=False, first="", gaps=gaps)
        for k in sorted(CHAMELEON_SYNTAX):
            yield case("chameleon-syntax/%s/%s" % (k, x), "h_syntax", 20, before=[x], kind=k, table="CHAMELEON", tr=False, first="", gaps=gaps)
    for w in ("text", "attribute"):
        yield case("charref/" + w, "h_charref", 5, where=w)
