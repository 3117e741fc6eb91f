"""C21 Pyramid settings and directives configure the renderer as documented."""
import os
import sys
import types

from symx import vfs
from props.common import esc, UNICODE, CS

vfs.install()

PRELOAD = ["tonnikala.loader", "tonnikala.pyramid"]
OPTS = {"private": {"extra_lib": ["pyramid.settings"]}}

BOUNDS = ("every combination of presence of the five settings; flags as booleans, None, integers, every string of 0..1 (thorough 0..2) characters of all of Unicode and 14 words in any mixture of cases, with whitespace around them, and with any one of their characters replaced by any other; "
          "extensions and search paths as lists, tuples and as every string of 0..5 (thorough 0..7) characters of a letter, dots, colons and every kind of whitespace; directives "
          "called any number of times (up to 3), before and after the package is included; values that are mappings of every kind and eleven kinds that are not; "
          "values and system values with any of the same names, with strings of 0..2 characters of all of Unicode")
OUTSIDE = "the system mapping being modified by a render; settings of types that Pyramid itself never makes; what the extensions are matched with (Pyramid's)"
ASSUMPTIONS = ["symx/vfs.py stands for the operating system's files and clock in symbolic runs", "a stand-in records the directives and renderers in symbolic runs; "
               "replays use the real Configurator"]

ROOT = "/vfs"
TRUTHY = ["t", "true", "y", "yes", "on", "1"]
WORDS = TRUTHY + ["f", "false", "no", "off", "0", "2", "tt", "yess"]
SPACES = CS.of([9, 10, 13, 32, 0x0b, 0x0c, 0x1c, 0x85, 0xa0, 0x2003, 0x2028])
LETTERS = SPACES | CS.of(map(ord, "ab.:"))


class Registry(object):
    pass


class Config(object):
    """What the package uses of a Configurator."""

    def __init__(self, settings):
        self.registry = Registry()
        self.registry.settings = settings
        self.renderers = []

    def add_directive(self, name, f):
        setattr(self, name, lambda *a: f(self, *a))

    def add_renderer(self, name, factory):
        self.renderers.append((name, factory))

    def include(self, f):
        f(self)

    def factory(self, name):
        for k, v in self.renderers[::-1]:
            if k == name:
                return v
        return None

    def names(self):
        return [k for k, v in self.renderers]

    def finish(self):
        pass


def real_config(settings):
    from pyramid.config import Configurator
    from pyramid.interfaces import IRendererFactory

    class RealConfig(Configurator):
        def factory(self, name):
            return self.registry.queryUtility(IRendererFactory, name=name)

        def names(self):
            return [k for k, v in self.registry.getUtilitiesFor(IRendererFactory) if k not in ("json", "string")]

        def finish(self):
            self.commit()
    # conflicting registrations are resolved as they come
    return RealConfig(settings=settings, autocommit=True)


def configure(env, settings, include=1):
    P = env.mod("tonnikala.pyramid")
    c = Config(settings) if env.symbolic else real_config(settings)
    for i in range(include):
        c.include(P.includeme)
    c.finish()
    return c


def truth(s):
    """Is it a flag that is set?  None, booleans, numbers and strings."""
    if s is None:
        return False
    if s is True or s is False:
        return s
    if isinstance(s, int):
        return s == 1
    t = s.strip()
    for w in TRUTHY:
        if len(w) == len(t):
            same = True
            for a, b in zip(t, w):
                # letters of other scripts: none of them is any of these in lower case
                if not (a == b or a == b.upper()):
                    same = False
                    break
            if same:
                return True
    return False


def words(s):
    out = []
    cur = ""
    for ch in s:
        if ch.isspace():
            if len(cur):
                out.append(cur)
            cur = ""
        else:
            cur = cur + ch
    if len(cur):
        out.append(cur)
    return out


class Info(object):
    package = None
    registry = None
    settings = {}

    def __init__(self, name):
        self.name = name


def renderer(c, ext=".tk"):
    f = c.factory(ext)
    return f(Info("x" + ext))


def flag(env, name, kind, n):
    if kind == "str":
        return env.str(name, n, UNICODE)
    if kind == "near":
        # a word in any case, with whitespace around it and at most one of its characters replaced
        w = WORDS[n]
        how = env.choice(name + ".how", ["case", "space", "other", "OTHER"])
        if how == "case":
            return env.str(name, len(w), [CS.of([ord(ch), ord(ch.upper())]) for ch in w])
        if how == "space":
            return env.strs(name + ".before", 0, 1, SPACES) + w + env.strs(name + ".after", 0, 1, SPACES)
        w = w.upper() if how == "OTHER" else w
        k = env.choice(name + ".at", list(range(len(w))))
        return w[:k] + env.str(name, 1, UNICODE) + w[k + 1:]
    return env.choice(name, [True, False, None, 0, 1, 2, "true", " On\n", "no", "2", "", "TRUE", "Yes", "f"])


def ambient(env, reload):
    """Files a.tk in two directories, and a clock."""
    fs = vfs.system(env, ROOT)
    fs.now = 1000.0
    fs.write(fs.root + "/d/a.tk", "<a title='t'>m$v</a>", 900)
    return fs


def observe(env, fs, c, ctx=None):
    """Does the renderer reload, and does it translate?"""
    r = renderer(c)
    name = fs.root + "/d/a.tk"
    asked = []

    def gettext(m):
        asked.append(m)
        return "[" + m + "]"
    out = r({"v": "1", "gettext": gettext}, {"renderer_name": name})
    translates = len(asked) > 0
    env.eq(out, '<a title="[t]">[m]1</a>' if translates else '<a title="t">m1</a>', "what is rendered")
    fs.now = fs.now + 10
    fs.write(name, "<b>new</b>", 950)
    out = r({"v": "1", "gettext": gettext}, {"renderer_name": name})
    reloads = "new" in out
    fs.write(name, "<a title='t'>m$v</a>", 960)
    return reloads, translates


def h_flags(env, kinds, n, twice):
    """Each of the flags, present or not, and the fall-back."""
    fs = ambient(env, True)
    with vfs.Use(fs):
        settings = {"tonnikala.extensions": ".tk"}
        for k in ("tonnikala.reload", "pyramid.reload_templates", "tonnikala.l10n"):
            kind = kinds.get(k)
            if kind is not None:
                settings[k] = flag(env, k, kind, n)
        c = configure(env, settings, 2 if twice else 1)
        reloads, translates = observe(env, fs, c)
        want = settings.get("tonnikala.reload")
        if want is None:
            want = settings.get("pyramid.reload_templates")
        env.check(reloads == truth(want), "templates are reloaded just if the settings demand it")
        env.check(translates == truth(settings.get("tonnikala.l10n")), "templates are translated just if the settings demand it")


def h_directives(env):
    """The directives change what the settings demanded."""
    fs = ambient(env, True)
    with vfs.Use(fs):
        settings = {"tonnikala.extensions": [".tk"]}
        a, b = env.bool("a"), env.bool("b")
        settings["tonnikala.reload"] = a
        settings["tonnikala.l10n"] = b
        c = configure(env, settings)
        for i in range(2):
            if env.bool("again%d" % i):
                a = env.bool("a%d" % i)
                c.set_tonnikala_reload(a)
            if env.bool("also%d" % i):
                b = env.bool("b%d" % i)
                c.set_tonnikala_l10n(b)
            if env.bool("included%d" % i):
                env.mod("tonnikala.pyramid").includeme(c)
        c.finish()
        reloads, translates = observe(env, fs, c)
        env.check(reloads == a, "the last call decides on reloading")
        env.check(translates == b, "the last call decides on translation")


def same_items(env, got, want, msg):
    got, want = sorted_distinct(got), sorted_distinct(want)
    env.check(len(got) == len(want), msg)
    for w in want:
        env.check(bool([g for g in got if g == w]), msg)


def sorted_distinct(items):
    out = []
    for x in items:
        if not [y for y in out if y == x]:
            out.append(x)
    return out


def h_extensions(env, form, n, directive):
    P = env.mod("tonnikala.pyramid")
    if form == "str":
        value = env.str("s", n, [LETTERS] * n)
        if not env.symbolic:
            value = str(value)
        want = words(value)
    else:
        want = [env.str("s%d" % i, 1 + i % 2, CS.of(map(ord, "ab."))) for i in range(n)]
        value = want if form == "list" else tuple(want)
    if not env.symbolic:
        want = [str(w) for w in want]
    settings = {}
    if not directive:
        settings["tonnikala.extensions"] = value
    c = configure(env, settings)
    if directive:
        same_items(env, c.names(), [], "no extension by default")
        c.add_tonnikala_extensions(*want)
    c.finish()
    ends = [w if w[0] == "." else "." + w for w in want]
    same_items(env, c.names(), ends, "the extensions are registered, with a dot")
    loaders = []
    for w in ends:
        r = c.factory(w)(Info("x"))
        env.check(isinstance(r, P.TonnikalaTemplateRenderer), "a renderer for each extension")
        loaders.append(r.loader)
    for x in loaders:
        env.check(x is loaders[0], "they share a loader")


def package(name, directory):
    import importlib.machinery
    m = types.ModuleType(name)
    m.__file__ = directory + "/__init__.py"
    m.__path__ = [directory]
    m.__loader__ = importlib.machinery.SourceFileLoader(name, m.__file__)
    m.__spec__ = importlib.machinery.ModuleSpec(name, m.__loader__, origin=m.__file__)
    sys.modules[name] = m


def h_paths(env, form, n, m, directive):
    """Search paths of the settings and then of directives: the first that has the file counts."""
    fs = vfs.system(env, ROOT)
    fs.now = 1000.0
    with vfs.Use(fs):
        package("symxroot", fs.root)
        specs = []
        where = []
        for i in range(n + m):
            place = env.choice("place%d" % i, ["p0", "p1", "p2/d"])
            how = env.choice("how%d" % i, ["plain", "package"])
            where.append(place)
            specs.append(fs.root + "/" + place if how == "plain" else "symxroot:" + place)
        there = []
        for place in ("p0", "p1", "p2/d"):
            if env.bool(place):
                there.append(place)
                fs.write(fs.root + "/" + place + "/t.tk", "<a>" + place + "</a>", 900)
            fs.write(fs.root + "/" + place + "/other", "", 900)
        settings = {"tonnikala.extensions": "tk"}
        if n:
            gap = " "
            if form == "str":
                gap = env.choice("gap", [" ", "\n", "\n  ", "\r\n", " \t "])
                lead = env.choice("lead", ["", "\n", "  \n"])
                settings["tonnikala.search_paths"] = lead + gap.join(specs[:n]) + lead
            else:
                settings["tonnikala.search_paths"] = list(specs[:n]) if form == "list" else tuple(specs[:n])
        c = configure(env, settings)
        if directive == "once":
            c.add_tonnikala_search_paths(*specs[n:])
        else:
            for s in specs[n:]:
                c.add_tonnikala_search_paths(s)
        c.finish()
        want = [p for p in where if p in there]
        r = renderer(c)
        try:
            out = r({}, {"renderer_name": "t.tk"})
        except OSError as e:
            env.check(not want and e.errno == 2, "a template that is there is found")
            return
        env.check(len(want) > 0, "no template is found where none is")
        if want:
            env.eq(out, "<a>" + want[0] + "</a>", "the first search path that has it counts")


class Mapping(object):
    """A mapping that is no dict."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


class SubDict(dict):
    pass


class Thing(object):
    a = "x"


def prepare(env):
    fs = vfs.system(env, ROOT)
    fs.now = 1000.0
    src = "<a>${view}|${a}|${request}|${renderer_name if False else b}</a>"
    fs.write(fs.root + "/t.tk", src, 900)
    return fs


def h_merge(env, kind, n):
    fs = prepare(env)
    with vfs.Use(fs):
        c = configure(env, {"tonnikala.extensions": "tk"})
        r = renderer(c)
        system = {"renderer_name": fs.root + "/t.tk"}
        value = {}
        want = {}
        for name in ("view", "a", "request", "b"):
            s, v = env.bool("s" + name), env.bool("v" + name)
            env.assume(s or v)
            if s:
                system[name] = want[name] = "S" + name
            if v:
                value[name] = want[name] = env.str("V" + name, n, UNICODE) if name == "b" else "V" + name
        before = list(value.items())
        v = {"dict": lambda: value, "mapping": lambda: Mapping(value), "sub": lambda: SubDict(value), "proxy": lambda: types.MappingProxyType(value)}[kind]()
        out = r(v, dict(system))
        env.eq(out, "<a>" + "|".join([esc(want[k]) for k in ("view", "a", "request", "b")]) + "</a>", "values count more than system values")
        env.check(not hasattr(out, "__html__"), "a plain string is returned")
        env.check(isinstance(out, str), "a string is returned")
        now = list(value.items())
        env.check(len(now) == len(before), "the value is not modified")
        for x, y in zip(before, now):
            env.check(x[0] == y[0] and x[1] is y[1], "the value is not modified")
        # the same again: nothing is left of the first one
        out2 = r({"a": "2", "view": "2", "request": "2", "b": "2"}, dict(system))
        env.eq(out2, "<a>2|2|2|2</a>", "the next rendering")


def h_reject(env):
    fs = prepare(env)
    with vfs.Use(fs):
        c = configure(env, {"tonnikala.extensions": "tk"})
        r = renderer(c)
        system = {"renderer_name": fs.root + "/t.tk", "view": "v", "a": "a", "request": "r", "b": "b"}
        value = env.choice("value", [None, 5, 0, True, 1.5, "", "ab", [], [("a", "b")], (("a", "b"),), frozenset(["ab"]), Thing(), Thing])
        try:
            out = r(value, system)
            env.fail("a value that is no mapping is rejected")
        except ValueError:
            env.check(True, "ValueError")
        # and then it goes on
        env.eq(r({}, system), "<a>v|a|r|b</a>", "an empty mapping is fine")


def h_fragment(env, n):
    fs = prepare(env)
    s = env.str("s", n, UNICODE)
    with vfs.Use(fs):
        c = configure(env, {"tonnikala.extensions": "tk"})
        r = renderer(c)
        system = {"view": "v", "a": "a", "request": "r"}
        out = r.fragment(fs.root + "/t.tk", {"b": s}, dict(system))
        env.eq(out, "<a>v|a|r|" + esc(s) + "</a>", "what a fragment is")
        whole = r({"b": s}, dict(system, renderer_name=fs.root + "/t.tk"))
        env.check(not hasattr(whole, "__html__"), "a plain string is returned")
        fs.write(fs.root + "/u.tk", "<u>$f</u>", 900)
        env.eq(r({"f": whole}, {"renderer_name": fs.root + "/u.tk"}), "<u>" + esc(whole) + "</u>", "a rendered text is text")


def cases(tier):
    deep = tier == "thorough"

    def case(title, fn, cost, **args):
        return dict(name=title, fn=fn, args=args, cost=cost, samples=8)
    R, P, L = "tonnikala.reload", "pyramid.reload_templates", "tonnikala.l10n"
    for i, kinds in enumerate([{}, {R: "any"}, {P: "any"}, {R: "any", P: "any"}, {L: "any"}, {R: "any", L: "any"}, {P: "any", L: "any"}]):
        yield case("flags/%d" % i, "h_flags", 100, kinds=kinds, n=0, twice=i % 2)
    for k in (R, P, L):
        for n in range(0, 3 if deep else 2):
            yield case("flag/%s/%d" % (k, n), "h_flags", 10 * 3 ** n, kinds={k: "str"}, n=n, twice=0)
        for n in range(len(WORDS)):
            if deep or k == R or n % 3 == (0 if k == P else 1):
                yield case("near/%s/%s" % (k, WORDS[n]), "h_flags", 10 * 3 ** len(WORDS[n]), kinds={k: "near"}, n=n, twice=0)
    for n in range(0, 2):
        yield case("fallback/%d" % n, "h_flags", 30, kinds={R: "str", P: "any"}, n=n, twice=0)
    yield case("directives", "h_directives", 50)
    for d in (False, True):
        for f in ("str", "list", "tuple"):
            for n in range(0, (8 if deep else 6) if f == "str" else 4 if deep else 3):
                yield case("extensions/%s/%s/%d" % ("directive" if d else "setting", f, n), "h_extensions", 10 * 3 ** n, form=f, n=n, directive=d)
    for f in ("str", "list", "tuple"):
        for n in range(0, 3):
            for m in range(0, 3 if f == "list" else 2):
                if n + m < (4 if deep else 3):
                    yield case("paths/%s/%d%d" % (f, n, m), "h_paths", 10 * 6 ** (n + m), form=f, n=n, m=m, directive="once" if n % 2 else "each")
    for k in ("dict", "mapping", "sub", "proxy"):
        for n in range(0, 3 if k == "dict" or deep else 2):
            yield case("merge/%s/%d" % (k, n), "h_merge", 100, kind=k, n=n)
    yield case("reject", "h_reject", 20)
    for n in range(0, 4):
        yield case("fragment/%d" % n, "h_fragment", 20, n=n)
