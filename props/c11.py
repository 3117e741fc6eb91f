"""C11 Imports expose exactly the imported template's own definitions."""
from props.common import load, esc, UNICODE, CS

BOUNDS = ("importing templates with any subset of three names of their own, imported templates with any subset of the same names (defs and blocks, in both spellings), "
          "with and without equal names in the context; the import at top level, in a condition, a loop, a with, a def or a block, under an alias equal to none or "
          "one of the names; by a base, by a derived template, twice, of templates that extend or import others; a context variable with an arbitrary character")
OUTSIDE = "the attribute __main__; whether names that an imported template only inherits are attributes; aliases equal to a top level name of the importing template"
ASSUMPTIONS = ["templates come from a loader that resolves names in memory; FileLoader itself is the subject of C12 and C13"]

VAL = UNICODE.minus(CS.of(map(ord, "&<>\"'")))
NAMES = ["h", "k", "x"]
PROBES = ["h", "k", "x", "z", "i", "len"]


def probe(expr):
    return "${safe(lambda: %s)}" % expr


def probes(aliases, names=PROBES):
    out = "".join([probe("%s()" % n if n != "len" else "len(two)") + ";" for n in names])
    for a in aliases:
        for n in NAMES + ["zz", "v", "n", "len", "d"]:
            out += probe("%s.%s()" % (a, n)) + ";"
    return out


def definition(name, text, sp):
    if name == "x":
        return '<py:block name="x">%s</py:block>' % text if sp == 0 else '<b py:block="x">%s</b>' % text
    return '<py:def function="%s()">%s</py:def>' % (name, text) if sp == 0 else '<b py:def="%s">%s</b>' % (name, text)


def wrap(text, sp):
    return text if sp == 0 else "<b>" + text + "</b>"


def safe(f):
    try:
        return f()
    except NameError:
        return "NE"
    except AttributeError:
        return "AE"


def make_loader(env, sources, cached):
    L = env.mod("tonnikala.loader")

    class Mem(L.Loader):
        def __init__(self):
            L.Loader.__init__(self)
            self.cache = {}

        def load(self, name):
            if cached and name in self.cache:
                return self.cache[name]
            t = self.load_string(sources[name], name)
            self.cache[name] = t
            return t
    return Mem()


class Lib(object):
    """An imported template: its own names, each of which shows what it sees."""

    def __init__(self, tag, names, sp, ctx, v, n=None):
        self.tag = tag
        self.names = names
        self.sp = sp
        self.ctx = ctx
        self.v = v
        self.n = n          # a template imported as n

    def text(self, name):
        # only h looks at the others, so that there is no recursion
        if name == "h":
            return "%sh$v{%s}" % (self.tag, probes(["n"] if self.n else [], ["k", "x", "z", "i", "m", "len"]))
        return self.tag + name

    def source(self):
        imp = '<py:import href="%s" alias="n"/>' % self.n.tag if self.n else ""
        return "<html>%s%s</html>" % (imp, "".join([definition(n, self.text(n), self.sp) for n in self.names]))

    def out(self, name):
        if name not in self.names:
            return None
        if name == "h":
            inner = "".join([self.seen(n) + ";" for n in ["k", "x", "z", "i", "m", "len"]])
            if self.n:
                inner += attributes(self.n)
            return wrap("%sh%s{%s}" % (self.tag, self.v, inner), self.sp)
        return wrap(self.tag + name, self.sp)

    def seen(self, name):
        if name in self.names:
            return self.out(name)
        if name == "len":
            return "2"
        return "C" + name if name in self.ctx else "NE"


def attributes(lib):
    return "".join([(lib.out(n) if n in lib.names else "AE") + ";" for n in NAMES + ["zz", "v", "n", "len", "d"]])


def context(env, names, v):
    ctx = dict(v=v, two=[1, 2], yes=True, no=False, safe=safe)
    for n in names:
        ctx[n] = (lambda n=n: "C" + n)
    return ctx


PLACES = ["top", "iftrue", "iffalse", "for", "with", "def", "block", "last"]


def importing(place, alias, href, mine, sp):
    """The source of the importing template."""
    imp = '<py:import href="%s" alias="%s"/>' % (href, alias)
    inner = probes([alias])
    own = "".join([definition(n, "I" + n, sp) for n in mine])
    d = '<py:def function="q()">Q' + probes([alias]) + "</py:def>"
    if place == "top":
        body = imp + inner
    elif place == "last":
        body = inner + imp
    elif place == "iftrue":
        body = '<py:if test="yes">' + imp + inner + "</py:if>"
    elif place == "iffalse":
        body = '<py:if test="no">' + imp + "</py:if>" + inner
    elif place == "for":
        body = '<py:for each="i2 in two">' + imp + inner + "</py:for>"
    elif place == "with":
        body = '<py:with vars="w = 1">' + imp + inner + "</py:with>" + inner
    elif place == "def":
        body = '<py:def function="j()">' + imp + inner + "</py:def>${j()}" + inner
    elif place == "block":
        body = '<py:block name="j">' + imp + inner + "</py:block>" + inner
    return "<html>" + own + body + "|" + d + "${q()}" + inner + "</html>"


def expected(place, lib, mine, sp, ctx, alias):
    def seen(n, visible):
        if n == alias and (visible or place not in ("def", "block", "with")):
            # the alias is a variable of the scope, possibly unbound; the module itself is not callable
            return "NE" if not visible else "TE"
        if n in mine:
            return wrap("I" + n, sp)
        if n == "len":
            return "2"
        return "C" + n if n in ctx else "NE"

    def inner(visible, names=True, q=False):
        out = ""
        for n in PROBES:
            out += seen(n, visible) + ";"
        if visible:
            return out + attributes(lib)
        # no module by that name: a variable of the context or nothing
        for n in NAMES + ["zz", "v", "n", "len", "d"]:
            out += ("AE" if alias in ctx or alias in mine else "NE") + ";"
        return out

    own = "".join([wrap("I" + n, sp) for n in mine if n == "x"])
    q = "Q" + inner(place in ("top", "last"))
    if place == "top" or place == "last" or place == "iftrue":
        a, b = inner(True), inner(True)
    elif place == "iffalse":
        a, b = inner(False), inner(False)
    elif place == "for":
        a, b = inner(True) * 2, inner(True)
    else:
        a, b = inner(True) + inner(False), inner(False)
    return "<html>" + own + a + "|" + q + b + "</html>"


def h_place(env, place, libnames, sp, alias, mines):
    mine = env.choice("mine", mines)
    cn = env.choice("ctx", [[], ["h", "z", "m"], ["h", "k", "x", "z", "i"]])
    mine = [n for n in mine if n != alias]
    cn = [n for n in cn if n != alias]
    v = env.str("v", 1, VAL)
    lib = Lib("L", libnames, sp, cn, v)
    loader = make_loader(env, {"L": lib.source(), "t": importing(place, alias, "L", mine, sp)}, len(mines) > 4)
    ctx = context(env, cn, v)
    # the alias may be looked at as a name: not in these probes
    keep = dict(ctx)
    t = loader.load("t")
    # in the loop, condition etc. of __main__ the alias is a local variable of __main__
    for again in (0, 1):
        if alias in PROBES:
            # names equal to the alias are looked up as modules: a module cannot be called
            def safe2(f):
                try:
                    return safe(f)
                except TypeError:
                    return "TE"
            ctx["safe"] = keep["safe"] = safe2
        env.eq(t.render(ctx), expected(place, lib, mine, sp, cn, alias), "render %d of %s importing %s" % (again, importing(place, alias, "L", mine, sp), lib.source()))
        env.check(sorted(ctx) == sorted(keep), "the context is left unchanged")
        for n in keep:
            env.check(ctx[n] is keep[n], "the context is left unchanged: " + n)


SUBSETS = [[], ["h"], ["k"], ["x"], ["h", "k"], ["h", "x"], ["k", "x"], ["h", "k", "x"]]


def h_chain(env, who, libnames, childnames):
    """A template and its base: either imports."""
    cn = env.choice("ctx", [[], ["h", "k", "x", "z"]])
    sp = env.choice("sp", [0, 1])
    v = env.str("v", 1, VAL)
    lib = Lib("L", libnames, sp, cn, v)
    imp = '<py:import href="L" alias="m"/>'
    base = "<html>%s%s<py:block name=\"b\">B%s</py:block>|%s</html>" % (
        imp if "base" in who else "", "".join([definition(n, "I" + n, sp) for n in NAMES]), probes(["m"]), probes(["m"]))
    child = '<py:extends href="base">%s%s%s</py:extends>' % (
        imp.replace('"m"', '"m2"') if "child" in who else "", "".join([definition(n, "D" + n, 1 - sp) for n in childnames]),
        '<py:block name="b">C%s</py:block>' % probes(["m2"]) if env.bool("override") else "")
    loader = make_loader(env, {"L": lib.source(), "base": base, "child": child}, len(childnames) != 1)

    def names(top):
        out = ""
        for n in PROBES:
            if n in NAMES:
                out += wrap("D" + n, 1 - sp) if top and n in childnames else wrap("I" + n, sp)
            elif n == "len":
                out += "2"
            else:
                out += "C" + n if n in cn else "NE"
            out += ";"
        return out

    def mod(there):
        return attributes(lib) if there else "NE;" * 8

    def doc(top):
        own = names(top).split(";")[2]
        over = top and 'name="b"' in child
        b = "C" + names(top) + mod("child" in who) if over else "B" + names(top) + mod("base" in who)
        return "<html>" + own + b + "|" + names(top) + mod("base" in who) + "</html>"

    for top in env.choice("order", [[1, 0, 1], [0, 1, 0]]):
        ctx = context(env, cn, v)
        keep = dict(ctx)
        env.eq(loader.load("child" if top else "base").render(ctx), doc(top), "%s with %s, %s and %s" % (["base", "child"][top], base, child, lib.source()))
        env.check(sorted(ctx) == sorted(keep), "the context is left unchanged")
    if "base" in who or "child" in who:
        env.eq(loader.load("child").render(context(env, cn, v), "h"), wrap("Dh", 1 - sp) if "h" in childnames else wrap("Ih", sp), "h by name")


def h_two(env, same, n1, n2):
    """Two imports, of the same template or of two with the same names; templates that import others."""
    cn = env.choice("ctx", [[], ["h", "k", "x", "z"]])
    mine = env.choice("mine", [[], ["h", "k"], ["x"]])
    v = env.str("v", 1, VAL)
    l1 = Lib("L", n1, 0, cn, v)
    l2 = l1 if same else Lib("M", n2, 1, cn, v)
    if env.bool("nested") and not same:
        l1.n = l2
    src = {"L": l1.source(), "M": l2.source()}
    own = "".join([definition(n, "I" + n, 0) for n in mine])
    src["t"] = '<html><py:import href="L" alias="a"/>%s<py:import href="%s" alias="b"/>%s</html>' % (own, l2.tag, probes(["a", "b"]))
    loader = make_loader(env, src, len(n2) != 1)
    out = "Ix" if "x" in mine else ""
    for n in PROBES:
        out += ("I" + n if n in mine else "2" if n == "len" else "C" + n if n in cn else "NE") + ";"
    ctx = context(env, cn, v)
    keep = dict(ctx)
    env.eq(loader.load("t").render(ctx), "<html>" + out + attributes(l1) + attributes(l2) + "</html>", "two imports: %s" % sorted(src.items()))
    env.check(sorted(ctx) == sorted(keep), "the context is left unchanged")


def h_extending(env, libnames):
    """The imported template extends another one."""
    cn = env.choice("ctx", [[], ["h", "k", "x", "z"]])
    mine = env.choice("mine", SUBSETS)
    v = env.str("v", 1, VAL)
    lib = Lib("L", libnames, 0, cn, v)
    src = {
        "base": "<html>%s${h()}</html>" % "".join([definition(n, "B" + n, 1) for n in NAMES]),
        "L": '<py:extends href="base">%s</py:extends>' % "".join([definition(n, "L%s$v" % n, 0) for n in libnames]),
    }
    own = "".join([definition(n, "I" + n, 0) for n in mine])
    src["t"] = '<html><py:import href="L" alias="a"/>%s%s%s</html>' % (own, probes([]), "".join([probe("a.%s()" % n) + ";" for n in libnames + ["zz", "v", "len"]]))
    loader = make_loader(env, src, len(mine) != 1)
    out = "Ix" if "x" in mine else ""
    for n in PROBES:
        out += ("I" + n if n in mine else "2" if n == "len" else "C" + n if n in cn else "NE") + ";"
    out += "".join(["L" + n + v + ";" for n in libnames]) + "AE;" * 3
    env.eq(loader.load("t").render(context(env, cn, v)), "<html>" + out + "</html>", "import of an extending template: %s" % sorted(src.items()))


def cases(tier):
    deep = tier == "thorough"
    for place in PLACES:
        for libnames in SUBSETS:
            for sp in (0, 1):
                if sp == 1 and not deep and len(libnames) != 2:
                    continue
                yield dict(name="place/%s/%s/%d" % (place, "".join(libnames), sp), fn="h_place", args=dict(place=place, libnames=libnames, sp=sp, alias="m", mines=SUBSETS), cost=50, samples=4)
        for alias in ("h", "x", "z", "i"):
            for libnames in (SUBSETS if deep else [["h", "k"], ["k", "x"], ["h", "k", "x"]]):
                yield dict(name="alias/%s/%s/%s" % (place, alias, "".join(libnames)), fn="h_place", args=dict(place=place, libnames=libnames, sp=0, alias=alias, mines=SUBSETS if deep else SUBSETS[1::2]), cost=50, samples=4)
    for who in ("base", "child", "base child"):
        for libnames in SUBSETS:
            for childnames in SUBSETS if deep else SUBSETS[2::2] + SUBSETS[-1:]:
                yield dict(name="chain/%s/%s/%s" % (who, "".join(libnames), "".join(childnames)), fn="h_chain", args=dict(who=who, libnames=libnames, childnames=childnames), cost=40, samples=4)
    for n1 in SUBSETS:
        yield dict(name="two/same/%s" % "".join(n1), fn="h_two", args=dict(same=True, n1=n1, n2=n1), cost=20, samples=4)
        for n2 in SUBSETS if deep else [["h"], ["k", "x"], ["h", "k", "x"]]:
            yield dict(name="two/%s/%s" % ("".join(n1), "".join(n2)), fn="h_two", args=dict(same=False, n1=n1, n2=n2), cost=20, samples=4)
        yield dict(name="extending/%s" % "".join(n1), fn="h_extending", args=dict(libnames=n1), cost=20, samples=4)
