"""C15 Any template source either compiles or raises TemplateSyntaxError."""
from props.common import UNICODE, CS, named

# each of the 1400 letters that have a lower case would be a path of its own: without the planes of 256 characters that have any, but for the Latin-1 ones
CASED = named("lowerchanges")
ANY = UNICODE
for _a, _b in CASED.iv:
    ANY = ANY.minus(CS.rng(_a, _b) if _b < 256 else CS.rng(_a & ~255, _b | 255))
ANY = ANY | CS.of([0x41, 0x50, 0x58, 0xc9, 0x130, 0x1e9e, 0x212a])

BOUNDS = ("holes in %d skeletons of markup filled with every text of 0..2 (in half of them 3; thorough 3, 4) characters of Unicode but for upper case letters, and the blocks of 256 characters beyond Latin-1 that have any (7 of them are included), and with two words of markup "
          "with such a character between them (thorough: and after them; all pairs); holes in %d skeletons of Python (expressions, code, and the values of control attributes) filled with every "
          "text of up to 2 (thorough 3) characters from an alphabet of %d and with every two (thorough three) of %d words")
OUTSIDE = "longer texts, sources nested so deeply that Python itself gives up, what happens when the template is rendered"
ASSUMPTIONS = ["extended and imported templates can be loaded"]

MARKUP = {
    "all": "{}",
    "text": "<a>{}</a>",
    "after": "<a/>{}",
    "before": "{}<a/>",
    "tag": "<a {}></a>",
    "tag-open": "<a {}",
    "name": "<{}></a>",
    "name2": "<a><b{}/></a>",
    "end": "<a></{}></a>",
    "end-name": "<a></a{}>",
    "attribute-name": "<a b{}='1'/>",
    "value": "<a {}='{}'/>",
    "dquoted": '<a b="{}"/>',
    "squoted": "<a b='{}'/>",
    "unquoted": "<a b={}/>",
    "unquoted2": "<a b={} c>x</a>",
    "declaration": "<!{}><a/>",
    "doctype": "<!DOCTYPE {}><a/>",
    "doctype2": "<!doctype{}",
    "comment": "<a><!--{}--></a>",
    "comment-open": "<a><!--{}",
    "inner-declaration": "<a><!{}></a>",
    "marked": "<a><![{}]></a>",
    "pi": "<a><?{}?></a>",
    "pi-target": "<a><?x {}></a>",
    "pi-top": "<?{}><a/>",
    "entity": "<a>&{};</a>",
    "entity2": "<a>x&{} y</a>",
    "entity-attribute": "<a b='&{};'/>",
    "charref": "<a>&#{};</a>",
    "hexref": "<a>&#x{};</a>",
    "bigref": "<a>&#99999{};</a>",
    "script": "<script>{}</script>",
    "script-end": "<script>x</{}",
    "title": "<title>{}</title>",
    "style": "<a><style>{}</style></a>",
    "textarea": "<textarea>{}</textarea>",
    "void": "<a><br{}></a>",
    "control": "<a><py:{}/></a>",
    "control-attribute": "<a py:{}></a>",
    "control-attribute2": "<a py:{}='x'/>",
    "prefix": "<a {}:if='x'/>",
    "if-element": "<a><py:if {}>x</py:if></a>",
    "if-element2": "<py:if test{}='x'>x</py:if>",
    "for-element": "<py:for {}>x</py:for>",
    "def-element": "<py:def {}>x</py:def>",
    "block-element": "<py:block {}>x</py:block>",
    "with-element": "<py:with {}>x</py:with>",
    "vars-element": "<py:vars {}>x</py:vars>",
    "replace-element": "<py:replace {}>x</py:replace>",
    "import-element": "<py:import {}/>",
    "import-contents": "<a><py:import href='x' alias='y'>{}</py:import></a>",
    "extends-element": "<py:extends {}></py:extends>",
    "extends-contents": "<py:extends href='x'>{}</py:extends>",
    "extends-href": "<py:extends href='{}'/>",
    "import-href": "<a><py:import href='{}' alias='x'/></a>",
    "dollar": "<a>$a{}</a>",
    "dollar2": "<a>${}</a>",
    "dollar-attribute": "<a b='${}'/>",
    "dollar-twice": "<a>$a{}$b{}</a>",
    "braces": "<a>${{{}</a>",
    "nested": "<a><b py:if='x'>{}</b><c/></a>",
}

# Python: the hole within an expression or a program
PYTHON = {
    "braced": "<a>${{{}}}</a>",
    "call": "<a>$a({})</a>",
    "index": "<a>$a.b[{}]c</a>",
    "attribute": "<a b='${{{}}}c'/>",
    "if": '<a py:if="{}">x</a>',
    "for": '<a py:for="{}">x</a>',
    "for-target": '<a py:for="{} in a">x</a>',
    "for-source": '<a py:for="a in {}">x</a>',
    "with": '<a py:with="{}">$a</a>',
    "with-second": '<a py:with="a=1;{}">$a</a>',
    "vars": '<a><py:vars names="{}">x</py:vars></a>',
    "strip": '<a py:strip="{}">x</a>',
    "content": '<a py:content="{}">x</a>',
    "replace": '<a py:replace="{}">x</a>',
    "attrs": '<a py:attrs="{}">x</a>',
    "def": '<a py:def="{}">x</a>',
    "def-arguments": '<a py:def="f({})">$a</a>',
    "def-element": '<a><py:def function="{}">x</py:def></a>',
    "block": '<a py:block="{}">x</a>',
    "block-in-for": '<a py:for="a in b" py:block="{}">x</a>',
    "alias": '<a><py:import href="x" alias="{}"/></a>',
    "code": "<a><?python {}?></a>",
    "code-newline": "<a><?python\n{}\n?></a>",
    "code-block": "<a><?python\nif a:\n {}\n?></a>",
    "code-def": "<a><?python\ndef f(a): {}\n?>$f</a>",
    "code-in-def": "<a py:def='f(a)'><?python {}?></a>",
    "code-in-extends": "<py:extends href='x'><py:block name='b'><?python {}?></py:block></py:extends>",
    "script": "<script>${{{}}}</script>",
    "chameleon": None,
}
CHAMELEON = {
    "condition": '<a tal:condition="{}">x</a>',
    "repeat": '<a tal:repeat="{}">x</a>',
    "content": '<a tal:content="{}">x</a>',
    "replace": '<a tal:replace="{}">x</a>',
    "omit": '<a tal:omit-tag="{}">x</a>',
    "attrs": '<a tal:attrs="{}">x</a>',
    "expression": "<a>${{{}}}</a>",
}
CHAMELEON_MARKUP = {
    "text": "<a>{}</a>",
    "tag": "<a {}></a>",
    "name": "<a><{}/></a>",
    "control": "<a><tal:{}/></a>",
    "control-attribute": "<a tal:{}='x'/>",
    "all": "{}",
}
del PYTHON["chameleon"]

WORDS = ["<", "</", "</a>", "<b>", "<py:if test='x'>", "<py:", " py:if='x'", " b=", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE ", "<?", "?>", "&", "&#", "&amp", "$a", "$a.", "${", "}", "\"", "'", "/>", "=",
         "<script>", "<py:extends href='x'>", "<?python "]
TOKENS = ["a", "1", "0", ".", ",", "(", ")", "[", "]", "{", "}", ":", ";", "=", "==", ":=", "+", "*", "**", "-", "<", "!", "@", "%", "~", "\\", "\n", " ", "\t", "#", "''", "'", "f'{a}'", "f'{", "'''", "b'a'", "None", "if ", " else ",
          " for ", " in ", "lambda ", "not ", "await ", "yield ", "return ", "async ", "import ", "from ", "global ", "nonlocal ", "class ", "def ", "del ", "try:", "except ", "while ", "with ", "match ", "type ", "pass", "break", "a=1",
          "a,b", "*a", "__debug__", "__import__", "...", "_"]
ALPHABET = CS.of([ord(c) for c in "a1 \n\t\r\x0c.,:;=()[]{}'\"#\\!@%$&*\0\x01\xa0\xb7\xe9\u2028\ufeff"] + [0xd800, 0x10ffff])
BOUNDS = BOUNDS % (len(MARKUP) + len(CHAMELEON_MARKUP), len(PYTHON) + len(CHAMELEON), len(ALPHABET), len(TOKENS))


# three characters of all of Unicode take less than a minute
CHEAP = ("all after text tag-open dquoted squoted unquoted comment comment-open pi pi-top entity entity2 entity-attribute charref hexref script script-end end "
         "end-name doctype doctype2 title style textarea dollar dollar-twice braces nested void name2").split()


# parsed like others that are done in any case
ALIKE = "title textarea nested style dquoted dollar-twice".split()


def fill(skeleton, hole):
    """str.format, with symbolic text in the (last) hole."""
    parts = skeleton.replace("{{", "\x02").replace("}}", "\x03").split("{}")
    parts = [p.replace("\x02", "{").replace("\x03", "}") for p in parts]
    out = parts[0]
    for p in parts[1:]:
        out = out + hole + p
    return out


def attempt(env, src, syntax, translatable):
    L = env.mod("tonnikala.loader")
    X = env.mod("tonnikala.runtime.exceptions")

    class OtherLoader(L.Loader):
        def load(self, name):
            return L.Loader().load_string("<x/>")
    env.observe("length", len(src))
    try:
        t = OtherLoader(translatable=translatable, syntax=syntax).load_string(src, "the/file.tk")
    except X.TemplateSyntaxError as e:
        env.reach("refused")
        env.check(type(e.lineno) is int, "the error has a line number")
        lines = 1
        for c in src:
            # character references of newlines are counted as lines: a recorded finding of C14
            if c in "\n\r\x0c\u2028&":
                lines += 1
        env.check(1 <= e.lineno, "the line number is positive")
        env.check(e.lineno <= lines, "the line is one of the template")
        return
    env.reach("compiled")
    env.check(callable(t.render), "there is a template")


def h_text(env, skeleton, lo, hi, syntax="tonnikala", tr=False):
    attempt(env, fill(skeleton, env.strs("hole", lo, hi, ANY)), syntax, tr)


def h_words(env, skeleton, first, words, last, syntax="tonnikala", tr=False):
    hole = first + env.strs("c1", 0, 1, ANY)
    for i in range(words):
        hole = hole + env.choice("w%d" % i, WORDS)
    hole = hole + env.strs("c2", 0, last, ANY)
    attempt(env, fill(skeleton, hole), syntax, tr)


def h_python(env, skeleton, lo, hi, syntax="tonnikala", tr=False):
    attempt(env, fill(skeleton, env.strs("hole", lo, hi, ALPHABET)), syntax, tr)


def h_tokens(env, skeleton, lo, hi, syntax="tonnikala", tr=False):
    hole = ""
    for i in range(env.choice("n", list(range(lo, hi + 1)))):
        hole = hole + env.choice("t%d" % i, TOKENS)
    attempt(env, fill(skeleton, hole), syntax, tr)


def cases(tier):
    deep = tier == "thorough"

    def case(name, fn, cost, **args):
        return dict(name=name, fn=fn, args=args, cost=cost, samples=4)
    for syntax, markup, python in (("tonnikala", MARKUP, PYTHON), ("chameleon", CHAMELEON_MARKUP, CHAMELEON)):
        extra = {"syntax": syntax} if syntax != "tonnikala" else {}
        s = syntax[0] + "/"
        for i, k in enumerate(sorted(markup)):
            yield case("markup/%s%s/short" % (s, k), "h_text", 60, skeleton=markup[k], lo=0, hi=2, tr=i % 4 == 0 and not extra, **extra)
            if deep or k in CHEAP and k not in ALIKE and not extra:
                yield case("markup/%s%s/3" % (s, k), "h_text", 600, skeleton=markup[k], lo=3, hi=3, **extra)
            if deep and k in CHEAP:
                yield case("markup/%s%s/4" % (s, k), "h_text", 900, skeleton=markup[k], lo=4, hi=4, **extra)
            if not extra or deep:
                for j, w in enumerate(WORDS):
                    if deep or (i + j) % 10 == 0:
                        yield case("words/%s%s/%d" % (s, k, j), "h_words", 200, skeleton=markup[k], first=w, words=1, last=int(deep), tr=(i + j) % 4 == 0 and not extra, **extra)
        for i, k in enumerate(sorted(python)):
            n = 3 if deep else 2
            yield case("python/%s%s/text" % (s, k), "h_python", 300, skeleton=python[k], lo=0, hi=n, **extra)
            yield case("python/%s%s/tokens" % (s, k), "h_tokens", 600, skeleton=python[k], lo=0, hi=n if deep or i % 2 == 0 or k in ("braced", "call", "code", "with", "def") else 1, tr=i % 4 == 0 and not extra, **extra)
