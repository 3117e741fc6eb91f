"""C07 Dynamic attributes follow the boolean and value rules."""
from collections import OrderedDict, namedtuple
from collections.abc import Mapping
from props.common import esc, load, UNICODE, CS, named

BOUNDS = ("every kind of value (None, booleans, symbolic strings of length 0..2 (thorough 0..4) over all of Unicode, every integer in -12..12, false-y and odd "
          "objects) in every single-expression and mixed form; up to three dynamic attributes on an element, every combination of kinds; py:attrs given as "
          "every kind of mapping or iterable of 0..2 (thorough 0..3) pairs with every kind of value")
OUTSIDE = "the same attribute name given twice; more attributes or pairs"
ASSUMPTIONS = ["the pure Python output buffer is explored; the C buffer is compared with it by C17"]

KINDS = ["none", "false", "true", "str", "empty", "int", "zero", "one", "float", "list", "obj", "falsy", "markup", "html", "eqtrue", "strsub"]
FEW = ["none", "false", "true", "str", "zero", "falsy"]


class Obj(object):
    def __str__(self):
        return "o<>"


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __str__(self):
        return "f&"


class EqTrue(object):
    """Equal to True, to False and to None, but none of them."""
    __hash__ = None

    def __eq__(self, other):
        return True

    def __str__(self):
        return "eq'"


class Html(object):
    def __init__(self, v):
        self.v = v

    def __html__(self):
        return self.v


class Sub(str):
    pass


def value(env, name, kinds, n, dom=UNICODE):
    """(value, its rendered text), the text None when omitted, True when it repeats the name."""
    kind = env.choice(name + ".kind", kinds)
    if kind == "none":
        return None, None, "None"
    if kind == "false":
        return False, None, "False"
    if kind == "true":
        return True, True, "True"
    if kind == "str":
        x = env.str(name, n, dom)
        return x, esc(x), esc(x)
    if kind == "empty":
        return "", "", ""
    if kind == "int":
        x = env.int(name, -12, 12)
        return x, str(x), str(x)
    if kind == "markup":
        x = env.str(name, n, dom)
        return env.mod("markupsafe").Markup(x), x, x
    if kind == "html":
        x = env.str(name, n, dom)
        return Html(x), x, x
    v = {"zero": 0, "one": 1, "float": 0.5, "list": [], "obj": Obj(), "falsy": Falsy(), "eqtrue": EqTrue(), "strsub": Sub("s<b")}[kind]
    return v, esc(str(v)), esc(str(v))


def attr(name, text):
    if text is None:
        return ""
    if text is True:
        text = name
    return " " + name + '="' + text + '"'


class Counter(object):
    def __init__(self):
        self.n = 0


NAMES = ["b", "checked", "data-b", "title", "_b", "b.c"]

SINGLE = ["$x", "${x}", "${ x }", "${x if True else 1}", "$o.x", "$l[0]", "$f(x)", "${(x)}", "${o.x}", "${f(f(x))}"]


def h_single(env, forms, kinds, n, names, translatable):
    name = env.choice("name", names)
    form = env.choice("form", forms)
    x, t, _ = value(env, "x", kinds, n)
    c = Counter()

    def f(v):
        c.n += 1
        return v

    class O(object):
        pass
    o = O()
    o.x = x
    tpl = load(env, "<a %s=\"%s\"/>" % (name, form), translatable=translatable)
    ctx = dict(x=x, o=o, l=[x], f=f, gettext=lambda m: m)
    out = tpl.render(ctx)
    env.eq(out, "<a" + attr(name, t) + "></a>" if False else "<a" + attr(name, t) + "></a>", "single expression %s" % form)
    env.check(c.n == form.count("f("), "evaluated once")


CONST = [("None", None), ("True", True), ("False", None), ("not 0", True), ("not 1", None), ("0", "0"), ("1", "1"), ("''", ""), ("'k'", "k"), ("[]", "[]"),
         ("()", "()"), ("'<'", "&lt;"), ("-1", "-1"), ("1.5", "1.5"), ("1 == 1", True), ("literal('<i')", "<i"), ("literal('')", ""), ("'t' 'u'", "tu")]


def h_const(env, translatable):
    name = env.choice("name", NAMES)
    src, t = env.choice("const", CONST)
    if "'" in src:
        tpl = load(env, "<a %s=\"${%s}\"/>" % (name, src), translatable=translatable)
    else:
        tpl = load(env, "<a %s='${%s}'/>" % (name, src), translatable=translatable)
    env.eq(tpl.render(dict(gettext=lambda m: m)), "<a" + attr(name, t) + "></a>", "constant expression %s" % src)


MIXED = [("p$x", "p", ""), ("$x q", "", " q"), (" $x", " ", ""), ("$x ", "", " "), ("${x};", "", ";"), ("$$$x", "$", ""), ("$x$$", "", "$"), ("${x}&lt;", "", "&lt;"),
         ("&amp;$x", "&amp;", ""), ("a${x}b", "a", "b"), ("$x${''}", "", ""), ("${None}$x", "None", ""), ("$x${True}", "", "True"), ("${1}-$x", "1-", "")]


def h_mixed(env, forms, kinds, n, translatable):
    name = env.choice("name", NAMES[:4])
    form, pre, suf = env.choice("form", forms)
    x, _, t = value(env, "x", kinds, n)
    tpl = load(env, "<a %s=\"%s\"/>" % (name, form), translatable=translatable)
    out = tpl.render(dict(x=x, gettext=lambda m: m))
    env.eq(out, "<a" + attr(name, pre + t + suf) + "></a>", "mixed attribute %s" % form)


def h_mixed2(env, kinds, n):
    """Two expressions in an attribute, with and without text."""
    sep = env.choice("sep", ["", "-", " ", "$$"])
    x, _, tx = value(env, "x", kinds, n)
    y, _, ty = value(env, "y", kinds, n)
    out = load(env, "<a b=\"${x}%s${y}\"/>" % sep).render(dict(x=x, y=y))
    env.eq(out, '<a b="' + tx + sep.replace("$$", "$") + ty + '"></a>', "two expressions")


LAYOUTS = [
    # (source, parts in output order: ('s', static text), ('x'|'y'|'z', attribute name), ('m', name, pre, which, suf))
    ('<a b="$x" c="$y" d="$z"/>', [("x", "b"), ("y", "c"), ("z", "d")]),
    ('<a s="1" b="$x" c="$y" d="$z"/>', [("s", ' s="1"'), ("x", "b"), ("y", "c"), ("z", "d")]),
    ('<a b="$x" c="-$y" d="$z"/>', [("x", "b"), ("m", "c", "-", "y", ""), ("z", "d")]),
    ('<a b="-$x" c="$y" d="$z-"/>', [("m", "b", "-", "x", ""), ("y", "c"), ("m", "d", "", "z", "-")]),
    ('<a b="$x"><i c="$y"/><u d="$z"/></a>', [("x", "b"), ("s", "><i"), ("y", "c"), ("s", "></i><u"), ("z", "d"), ("s", "></u")]),
    ('<a b="$x"><py:for each="i in (1, 2)"><i c="$y"/></py:for>$z</a>', [("x", "b"), ("s", "><i"), ("y", "c"), ("s", "></i><i"), ("y", "c"), ("s", "></i>"), ("t", "z")]),
]


def h_multi(env, layout, kinds, n):
    src, parts = LAYOUTS[layout]
    vals = {}
    text = {}
    for k in "xyz":
        v, t, u = value(env, k, kinds, n)
        vals[k] = v
        text[k] = (t, u)
    out = "<a"
    closed = False
    for p in parts:
        if p[0] == "s":
            out += p[1]
        elif p[0] == "m":
            out += attr(p[1], p[2] + text[p[3]][1] + p[4])
        elif p[0] == "t":
            out += text[p[1]][1]
            closed = True
        else:
            out += attr(p[1], text[p[0]][0])
    closed = closed or parts[-1][0] == "t"
    if closed:
        out += "</a>"
    elif "</a>" in src:
        out += "></a>"
    else:
        out += "></a>"
    tpl = load(env, src)
    env.eq(tpl.render(dict(vals)), out, "attributes of " + src)


class Map(Mapping):
    """A mapping that is not a dict."""

    def __init__(self, pairs):
        self.pairs = pairs

    def __getitem__(self, k):
        for a, b in self.pairs:
            if a == k:
                return b
        raise KeyError(k)

    def __iter__(self):
        for a, b in self.pairs:
            yield a

    def __len__(self):
        return len(self.pairs)


class Iter(object):
    """An iterable that has no length."""

    def __init__(self, pairs):
        self.pairs = pairs

    def __iter__(self):
        return iter(self.pairs)


Pair = namedtuple("Pair", "a b")
CONTAINERS = ["dict", "odict", "map", "items", "list", "tuple", "gen", "iter", "lists", "namedtuples", "zip"]


def container(kind, pairs):
    if kind == "dict":
        return dict(pairs)
    if kind == "odict":
        return OrderedDict(pairs)
    if kind == "map":
        return Map(pairs)
    if kind == "items":
        return dict(pairs).items()
    if kind == "list":
        return list(pairs)
    if kind == "tuple":
        return tuple(pairs)
    if kind == "gen":
        return (p for p in list(pairs))
    if kind == "iter":
        return Iter(pairs)
    if kind == "lists":
        return [[a, b] for a, b in pairs]
    if kind == "zip":
        return zip([a for a, b in pairs], [b for a, b in pairs])
    return [Pair(a, b) for a, b in pairs]


SHAPES = {"bare": ('<a py:attrs="%s"/>', "<a", "></a>"),
          "static": ('<a s="1" py:attrs="%s">k</a>', '<a s="1"', ">k</a>"),
          "strip": ('<q><a py:strip="False" py:attrs="%s">k</a></q>', "<q><a", ">k</a></q>"),
          "if": ('<q><a py:attrs="%s" py:if="1 == 1">k</a>l</q>', "<q><a", ">k</a>l</q>"),
          "for": ('<q><a py:for="i in [1]" py:attrs="%s">k</a>l</q>', "<q><a", ">k</a>l</q>"),
          "content": ('<q><a py:attrs="%s" py:content="1">k</a></q>', "<q><a", ">1</a></q>"),
          "block": ('<q><a py:block="bb" py:attrs="%s">k</a></q>', "<q><a", ">k</a></q>")}


def h_attrs(env, containers, npairs, kinds, n, shapes):
    kind = env.choice("container", containers)
    shape = env.choice("shape", shapes)
    keys = ["k", "data-m", "z9"]
    pairs = []
    out = ""
    for i in range(npairs):
        v, t, _ = value(env, "v%d" % i, kinds, n)
        pairs.append((keys[(i + 1) % 3], v))
        out += attr(keys[(i + 1) % 3], t)
    src, pre, suf = SHAPES[shape]
    c = Counter()

    def f():
        c.n += 1
        return container(kind, pairs)
    got = load(env, src % "f()").render(dict(f=f))
    env.eq(got, pre + out + suf, "py:attrs with a " + kind)
    env.check(c.n == 1, "py:attrs is evaluated once")


NAMECH = CS.rng(0x61, 0x7a).inter(CS.rng(0x61, 0x7a)) | CS.of(map(ord, "-_.:0AZ\xe9"))


def h_attrskey(env, nkey):
    """Arbitrary attribute names."""
    k = env.str("k", nkey, NAMECH)
    v, t, _ = value(env, "v", FEW, 1)
    kind = env.choice("container", ["list", "map"])
    got = load(env, '<a py:attrs="d"/>').render(dict(d=container(kind, [(k, v)])))
    env.eq(got, "<a" + attr(k, t) + "></a>", "py:attrs with any name")


def h_attrsfalse(env):
    d = env.choice("d", [None, False, 0, "", (), [], {}, Map([]), Falsy(), 0.0])
    shape = env.choice("shape", sorted(SHAPES))
    src, pre, suf = SHAPES[shape]
    got = load(env, src % "d").render(dict(d=d))
    env.eq(got, pre + suf, "py:attrs with a false value")


def h_attrsmix(env, kinds, n):
    """py:attrs together with static, dynamic and mixed attributes: every attribute is there, each by its rule."""
    x, tx, ux = value(env, "x", kinds, n)
    y, ty, _ = value(env, "y", kinds, n)
    d, td, _ = value(env, "d", kinds, n)
    first = env.bool("first")
    at = ' py:attrs="[(\'d\', d)]"'
    body = ' s="1" b="$x" c="$y" e="$x-"'
    got = load(env, "<a" + (at + body if first else body + at) + "/>").render(dict(x=x, y=y, d=d))
    env.check(got.startswith("<a") and got.endswith("></a>"), "tags")
    want = [attr("b", tx), attr("c", ty), attr("e", ux + "-")]
    env.eq(got, "<a" + ' s="1"' + "".join(want) + attr("d", td) + "></a>", "py:attrs with other attributes")


def h_two(env, n):
    """One template, two renders: the decision is taken anew for each value."""
    t = load(env, "<a b=\"$x\" py:attrs=\"{'c': x}\"/>")
    v1, t1, _ = value(env, "p", FEW, n)
    v2, t2, _ = value(env, "q", FEW, n)
    o1 = t.render(dict(x=v1))
    o2 = t.render(dict(x=v2))
    env.eq(o1, "<a" + attr("b", t1) + attr("c", t1) + "></a>", "first render")
    env.eq(o2, "<a" + attr("b", t2) + attr("c", t2) + "></a>", "second render")


def cases(tier):
    deep = tier == "thorough"
    ns = (0, 1, 2, 3, 4) if deep else (0, 1, 2)
    for tr in (False, True):
        for n in ns:
            yield dict(name="single/%d/%d" % (tr, n), fn="h_single", args=dict(forms=SINGLE, kinds=KINDS if n == 1 else ["str", "markup", "html"], n=n, names=NAMES[:4] if n != 1 else ["b", "title"], translatable=tr), cost=60)
            yield dict(name="mixed/%d/%d" % (tr, n), fn="h_mixed", args=dict(forms=MIXED, kinds=KINDS if n == 1 else ["str", "markup", "html"], n=n, translatable=tr), cost=60)
        yield dict(name="names/%d" % tr, fn="h_single", args=dict(forms=SINGLE[:2], kinds=FEW, n=1, names=NAMES, translatable=tr), cost=30)
        yield dict(name="const/%d" % tr, fn="h_const", args=dict(translatable=tr), cost=30)
    yield dict(name="mixed2", fn="h_mixed2", args=dict(kinds=KINDS, n=1), cost=80)
    for i in range(len(LAYOUTS)):
        yield dict(name="multi/%d" % i, fn="h_multi", args=dict(layout=i, kinds=FEW if not deep else FEW + ["int", "empty", "one"], n=1), cost=80)
    for c in CONTAINERS:
        for k in range(0, 4 if deep else 3):
            yield dict(name="attrs/%s/%d" % (c, k), fn="h_attrs", args=dict(containers=[c], npairs=k, kinds=KINDS if k == 1 else FEW, n=1 if k != 1 else 2, shapes=["bare", "static"]), cost=60)
    yield dict(name="attrs/shapes", fn="h_attrs", args=dict(containers=["dict", "list"], npairs=1, kinds=FEW, n=1, shapes=sorted(SHAPES)), cost=60)
    for n in (1, 2, 3):
        yield dict(name="attrskey/%d" % n, fn="h_attrskey", args=dict(nkey=n), cost=30)
    yield dict(name="attrsfalse", fn="h_attrsfalse", args={}, cost=30)
    yield dict(name="attrsmix", fn="h_attrsmix", args=dict(kinds=FEW, n=1), cost=80)
    yield dict(name="two", fn="h_two", args=dict(n=1), cost=30)
