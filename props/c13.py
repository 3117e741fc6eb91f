"""C13 Template names resolve along the search paths in order."""
import importlib.machinery
import os
import sys
import types

from symx import vfs
from props.common import CS

vfs.install()

PRELOAD = ["tonnikala.loader", "tonnikala.pyramid"]

BOUNDS = ("up to 3 (thorough 4) search paths, absolute, relative, unnormalised, repeated, given at construction or added later, package-relative and plain for Pyramid; every "
          "combination of files that exist in them; every name of 1..3 (thorough 4) characters out of t, d, / and ., a few longer ones, absolute names and asset specifications")
OUTSIDE = "names of directories or ending in a slash or a dot component; symbolic links; file names with a colon; names with .. in package-relative paths"
ASSUMPTIONS = ["symx/vfs.py stands for the operating system's files in symbolic runs; every replay is on real files"]

ROOT = "/vfs"
LETTERS = CS.of(map(ord, "td/."))


def path_of(base, name):
    """The file that name means below base; component by component."""
    parts = base.split("/")
    if name.startswith("/"):
        parts = []
    for x in name.split("/"):
        if x == "" or x == ".":
            continue
        if x == "..":
            if len(parts) > 1:
                parts = parts[:-1]
            continue
        parts = parts + [x]
    if parts and parts[0] != "":
        parts = [""] + parts
    return "/".join(parts)


FILES = ["t", "d/t", "tt"]


class Place(object):
    """Search paths p0, p1, ... and the files in them."""

    def __init__(self, env, n, packages=()):
        self.fs = vfs.system(env, ROOT)
        self.n = n
        self.packages = packages
        self.there = {}

    def fill(self, env):
        for i in range(self.n):
            for f in FILES:
                if env.bool("p%d/%s" % (i, f)):
                    self.fs.write("%s/p%d/%s" % (self.fs.root, i, f), "<html>%d %s</html>" % (i, f), 900)
            # the directories are there in any case
            self.fs.write("%s/p%d/d/other" % (self.fs.root, i), "", 900)

    def base(self, i):
        return "%s/p%d" % (self.fs.root, i)


def spelled(fs, base, style):
    if style == "slash":
        return base + "/"
    if style == "dots":
        return base + "/d/.."
    if style == "relative":
        return os.path.relpath(base)
    return base


def expect(env, place, order, name):
    """The file that the name means, or None."""
    if name.startswith("/"):
        p = path_of("", name)
        env.assume(not is_dir(place, p))
        return p if place.fs.exists(p) else None
    # a file with a slash behind it: up to the operating system
    env.assume(name.split("/")[-1] not in ("", ".", ".."))
    for i in order:
        p = path_of(place.base(i), name)
        env.assume(not is_dir(place, p))
        if place.fs.exists(p):
            return p
    return None


def is_dir(place, p):
    """Does p name a directory (of the files of the harness, or above them)?"""
    fs = place.fs
    if p == "" or fs.root == p or fs.root.startswith(p + "/"):
        return True
    for i in range(place.n):
        b = place.base(i)
        if p == b or p == b + "/d":
            return True
    return False


def same(p, q):
    return os.path.abspath(p) == q


def h_file(env, n, styles, initial, maxlen):
    place = Place(env, n)
    fs = place.fs
    place.fill(env)
    name = env.strs("name", 1, maxlen, LETTERS)
    name = env.concrete(name)
    order = env.choice("order", ORDERS[n])
    paths = [spelled(fs, place.base(i), styles[i % len(styles)]) for i in order]
    L = env.mod("tonnikala.loader")
    with vfs.Use(fs):
        loader = L.FileLoader(paths[:initial])
        rest = paths[initial:]
        if env.bool("at once"):
            loader.add_path(*rest)
        else:
            for p in rest:
                loader.add_path(p)
        judge(env, place, loader, order, name)


ORDERS = {0: [[]], 1: [[0]], 2: [[0, 1], [1, 0], [0, 1, 0]], 3: [[0, 1, 2], [2, 0, 1], [1, 1, 0, 2]], 4: [[0, 1, 2, 3], [3, 1, 2, 0]]}


def judge(env, place, loader, order, name):
    want = expect(env, place, order, name)
    got = loader.resolve(name)
    if want is None:
        env.check(got is None, "%s is found nowhere, and resolves to %s" % (name, got))
        try:
            loader.load(name)
            env.fail("a name that is found nowhere is loaded")
        except OSError as e:
            env.check(e.errno == 2, "ENOENT for a name that is found nowhere")
        return
    env.check(got is not None and same(got, want), "%s is %s, and resolves to %s" % (name, want, got))
    content = "%s %s" % (want.split("/p")[-1].split("/")[0], want.split("/p")[-1].partition("/")[2])
    env.eq(loader.load(name).render({}), "<html>" + content + "</html>", "the file that is loaded")


def h_abs(env, kind, n):
    """Absolute names."""
    place = Place(env, n)
    fs = place.fs
    place.fill(env)
    name = fs.root + env.choice("name", ["/p0/t", "/p0/d/t", "/p0/none", "/q/t", "/p0/d/../t", "/p0/d//t"])
    if env.bool("q"):
        fs.write(fs.root + "/q/t", "<html>q</html>", 900)
    order = env.choice("order", ORDERS[n])
    with vfs.Use(fs):
        loader = make_loader(env, place, kind, order)
        # the packages contain files of the same path
        for i in range(n):
            for sub in ("/d", ""):
                fs.write(place.base(i) + sub + name, "<html>wrong</html>", 900)
        got = loader.resolve(name)
        if kind != "file":
            # a package without that file: nothing else is meant by the specification
            fs.write(place.base(0) + place.base(0) + "/x", "<html>wrong</html>", 900)
            env.check(loader.resolve("symxpkg0:x") is None, "symxpkg0:x does not exist")
        if fs.exists(path_of("", name)):
            env.check(got == name, "an existing absolute name resolves to itself: %s and not %s" % (name, got))
        else:
            env.check(got is None, "an absolute name that does not exist resolves to nothing: %s, not %s" % (name, got))


def package(fs, name, directory):
    """An importable package at a directory."""
    m = types.ModuleType(name)
    m.__file__ = directory + "/__init__.py"
    m.__path__ = [directory]
    m.__loader__ = importlib.machinery.SourceFileLoader(name, m.__file__)
    m.__spec__ = importlib.machinery.ModuleSpec(name, m.__loader__, origin=m.__file__)
    sys.modules[name] = m


def make_loader(env, place, kind, order):
    """kind: for FileLoader "file"; for Pyramid a letter for each search path: P package, D directory of a package, F plain, R relative"""
    if kind == "file":
        return env.mod("tonnikala.loader").FileLoader([place.base(i) for i in order])
    loader = env.mod("tonnikala.pyramid").PyramidTonnikalaLoader()
    fs = place.fs
    for i in range(place.n):
        package(fs, "symxpkg%d" % i, place.base(i))
    package(fs, "symxroot", fs.root)
    for j, i in enumerate(order):
        k = kind[j % len(kind)]
        if k == "P":
            loader.add_search_path("symxpkg%d" % i, "")
        elif k == "D":
            loader.add_search_path("symxroot", "p%d" % i)
        elif k == "F":
            loader.add_search_path(None, place.base(i))
        else:
            loader.add_search_path(None, os.path.relpath(place.base(i)))
    return loader


def h_pyramid(env, n, kind, maxlen):
    place = Place(env, n)
    place.fill(env)
    name = env.concrete(env.strs("name", 1, maxlen, LETTERS))
    # deprecated by pkg_resources, or absolute
    env.assume(".." not in name.split("/") and not name.startswith("/"))
    order = env.choice("order", ORDERS[n])
    with vfs.Use(place.fs):
        loader = make_loader(env, place, kind, order)
        judge(env, place, loader, order, name)


def h_asset(env, n, kind):
    """package:name"""
    place = Place(env, n)
    place.fill(env)
    order = env.choice("order", ORDERS[n])
    which = env.choice("which", ["symxpkg%d" % i for i in range(n)] + ["symxroot", "symxnone"])
    rel = env.choice("rel", ["t", "d/t", "p0/t", "p1/d/t", "x"])
    with vfs.Use(place.fs):
        loader = make_loader(env, place, kind, order)
        got = loader.resolve(which + ":" + rel)
        base = place.fs.root if which == "symxroot" else None if which == "symxnone" else place.base(int(which[7:]))
        want = path_of(base, rel) if base else None
        if want is not None and place.fs.exists(want):
            env.check(got is not None and same(got, want), "%s:%s is %s, and not %s" % (which, rel, want, got))
            i, f = want.split("/p")[-1].split("/", 1)
            env.eq(loader.load(which + ":" + rel).render({}), "<html>%s %s</html>" % (i, f), "the file that is loaded")
        else:
            env.check(got is None, "%s:%s does not exist: not %s" % (which, rel, got))


def h_directive(env, n):
    """The search path directive of Pyramid: package:directory or a directory."""
    place = Place(env, n)
    place.fill(env)
    fs = place.fs
    P = env.mod("tonnikala.pyramid")
    order = env.choice("order", ORDERS[n])
    name = env.choice("name", ["t", "d/t", "tt", "x"])
    with vfs.Use(fs):
        make_loader(env, place, "F", [])
        factory = P.TonnikalaRendererFactory()

        class Registry(object):
            tonnikala_renderer_factory = factory

        class Config(object):
            registry = Registry
        specs = []
        for j, i in enumerate(order):
            k = env.choice("k%d" % j, ["root", "sub", "plain"])
            # a package with an empty directory would be the directory of that name
            specs.append("symxroot:p%d" % i if k == "root" else "symxpkg%d:." % i if k == "sub" else place.base(i))
        if env.bool("at once"):
            P.add_tonnikala_search_paths(Config, *specs)
        else:
            for s in specs:
                P.add_tonnikala_search_paths(Config, s)
        judge(env, place, factory.loader, order, name)


def cases(tier):
    deep = tier == "thorough"
    ml = 4 if deep else 3
    for n in (0, 1, 2):
        for styles in (["plain"], ["slash"], ["dots", "relative"], ["relative", "plain"]):
            for initial in (0, 1, 2):
                if initial <= n:
                    yield dict(name="file/%d/%s/%d" % (n, styles[0], initial), fn="h_file", args=dict(n=n, styles=styles, initial=initial, maxlen=ml if n < 2 else 2 if not deep else 3),
                               cost=10 ** n, samples=8)
    for initial in (0, 1, 3):
        yield dict(name="file/3/%d" % initial, fn="h_file", args=dict(n=3, styles=["plain", "relative", "slash"], initial=initial, maxlen=1 if not deep else 2), cost=500, samples=8)
    if deep:
        yield dict(name="file/4", fn="h_file", args=dict(n=4, styles=["plain"], initial=2, maxlen=1), cost=2000, samples=8)
    for kind in ("file", "P", "D", "F", "R", "DF", "FP", "PD"):
        yield dict(name="abs/%s" % kind, fn="h_abs", args=dict(kind=kind, n=1), cost=30, samples=8)
        yield dict(name="abs2/%s" % kind, fn="h_abs", args=dict(kind=kind, n=2), cost=300, samples=8)
        if kind != "file":
            for n in (1, 2):
                yield dict(name="pyramid/%s/%d" % (kind, n), fn="h_pyramid", args=dict(n=n, kind=kind, maxlen=ml if n == 1 else 2 if not deep else 3), cost=10 ** n, samples=8)
            yield dict(name="pyramid/%s/3" % kind, fn="h_pyramid", args=dict(n=3, kind=kind, maxlen=1), cost=500, samples=8)
            yield dict(name="asset/%s" % kind, fn="h_asset", args=dict(n=2, kind=kind), cost=300, samples=8)
    yield dict(name="directive/1", fn="h_directive", args=dict(n=1), cost=50, samples=8)
    yield dict(name="directive/2", fn="h_directive", args=dict(n=2), cost=500, samples=8)
