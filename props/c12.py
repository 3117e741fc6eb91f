"""C12 The file loader's cache is coherent with the files."""
import os
from symx import vfs
from props.common import esc, UNICODE, CS

vfs.install()

BOUNDS = ("three cached templates, of which one extends and one imports another; histories of 2 (thorough: 3) steps, each an arbitrary change (any file modified in place or "
          "replaced, deleted, restored), an arbitrary clock advance and a load of any of the templates; reload on, off, or switched in between; modification times "
          "are arbitrary quarters of a second within 1.25 s, before or after the previous ones; the clock advances by arbitrary eighths of a second up to 0.5; a file "
          "changed in the midst of a load before any of the operations of the loader on files")
OUTSIDE = "clocks that run backwards; exactly the check interval; modification times that do not get newer; concurrent loads"
ASSUMPTIONS = ["symx/vfs.py stands for the operating system's files and clock; histories without a change in the midst of a load are replayed on real files"]

ROOT = "/vfs"
NAMES = ["a", "b", "c"]
# a extends b; c imports b
TEXT = {
    "a": '<py:extends href="b"><py:block name="x">a%d</py:block></py:extends>',
    "b": '<html>b%d<py:block name="x">-</py:block><py:def function="f()">f%d</py:def></html>',
    "c": '<html><py:import href="b" alias="m"/>c%d${m.f()}</html>',
}
DEPS = {"a": ["b"], "b": [], "c": ["b"]}


def text(name, version):
    return TEXT[name].replace("%d", str(version))


def versions(name, out):
    """The versions of the files that an output shows: {file: version}."""
    s = out[6:-7]
    if name == "a":
        b, a = s[1:].split("a")
        return {"b": int(b), "a": int(a)}
    if name == "b":
        return {"b": int(s[1:].split("-")[0])}
    c, b = s[1:].split("f")
    return {"c": int(c), "b": int(b)}


class Entry(object):
    """What is known of a cached template."""

    def __init__(self, obj, ver, mtime, sure):
        self.obj = obj
        self.ver = ver          # the version that it was compiled from
        self.mtime = mtime      # of that version
        self.sure = sure        # it is certainly in the cache
        self.deps = {}          # versions of the templates it extends


class World(object):
    def __init__(self, env, reload, fs=None):
        self.env = env
        self.fs = fs
        self.fs.now = 1000.0
        self.reload = reload
        self.cur = {}           # name -> (version, mtime), of existing files
        self.all = {}           # (name, version) -> mtime
        self.n = 0
        self.cache = {}
        self.last = self.fs.now

    def write(self, name, mtime, replace=False):
        self.n += 1
        self.cur[name] = (self.n, mtime)
        self.all[(name, self.n)] = mtime
        self.fs.write(self.fs.root + "/" + name, text(name, self.n), mtime, replace)

    def delete(self, name):
        self.cur.pop(name, None)
        self.fs.delete(self.fs.root + "/" + name)

    def file_of(self, name, version):
        return self.all[(name, version)]


def newer(a, b):
    return a > b


def do_load(env, w, loader, name, midway=None):
    """Load and render; compare with what the property allows."""
    env.assume(w.fs.now - w.last != INTERVAL)
    due = w.reload and w.fs.now - w.last > INTERVAL
    e = w.cache.get(name)
    opened = len(w.fs.opened)
    before = dict(w.cur)
    if midway is not None:
        w.fs.calls = 0
        w.fs.pending = midway
    t = None
    out = None
    try:
        t = loader.load(name)
        if name != "c":
            w.fs.pending = None
        read = w.fs.opened[opened:]
        out = versions(name, t.render({}))
    except OSError as x:
        w.fs.pending = None
        env.check(x.errno == 2, "an OSError with ENOENT")
        missing = [n for n in [name] + DEPS[name] if n not in w.cur or n not in before]
        env.check(missing, "load of %s fails though its files are there" % name)
        if not due and e is not None and e.sure and name not in missing:
            # only an import can be missing now
            env.check(name == "c", "a cached template does not need its file")
        if due:
            settle(w, None)
            w.last = w.fs.now
        w.cache.pop(name, None)
        return
    w.fs.pending = None
    if due:
        w.last = w.fs.now
    if due:
        env.check(name in before or name in w.cur, "a name whose file was deleted raises OSError: " + name)
    ver = out[name]
    if not due:
        if e is not None and e.sure:
            env.check(t is e.obj, "the cached template is returned as the same object: " + name)
            env.check(w.fs.root + "/" + name not in read, "its file is not read again: " + name)
            env.check(ver == e.ver, "it is unchanged: " + name)
        elif e is None:
            env.check(ver == before[name][0] or ver == w.cur[name][0], "a template that is not cached is read from its file: " + name)
    else:
        # every cached file that is newer than what was compiled is reloaded
        if e is not None and e.sure and name in before:
            if newer(before[name][1], e.mtime):
                env.check(t is not e.obj, "a modified template is loaded again: " + name)
                env.check(ver == before[name][0] or ver == w.cur.get(name, before[name])[0], "the current content of %s is returned, not version %d" % (name, ver))
        for d in DEPS[name]:
            ed = w.cache.get(d)
            if ed is not None and ed.sure and d in before and newer(before[d][1], ed.mtime):
                env.check(out[d] == before[d][0] or out[d] == w.cur.get(d, before[d])[0], "%s was modified: %s shows its current content, not version %d" % (d, name, out[d]))
        if e is None and name in before:
            env.check(ver == before[name][0] or ver == w.cur.get(name, before[name])[0], "a template that is not cached is read from its file: " + name)
        settle(w, name)
    if e is None or t is not e.obj:
        ne = Entry(t, ver, w.file_of(name, ver), True)
        w.cache[name] = ne
    else:
        e.sure = True
    # what it depends on was loaded too, if it was not cached
    for d in DEPS[name]:
        ed = w.cache.get(d)
        if ed is None or (out[d] != ed.ver and (name == "c" or t is not (e.obj if e else None))):
            w.cache[d] = Entry(None, out[d], w.file_of(d, out[d]), False)


def settle(w, keep):
    """After a check: if anything was deleted or modified, entries may have been dropped."""
    touched = False
    for n, e in w.cache.items():
        if n not in w.cur or w.cur[n][0] != e.ver or not e.sure:
            touched = True
    if touched:
        for n, e in w.cache.items():
            if n != keep:
                e.sure = False


def make(env, w, paths=None):
    L = env.mod("tonnikala.loader")
    loader = L.FileLoader(paths=paths or [w.fs.root])
    if w.reload:
        loader.set_reload(True)
    return loader


INTERVAL = 0.25


def h_history(env, first, steps, changes, reload, toggle):
    """Any history of changes, clock advances and loads."""
    w = World(env, reload, vfs.system(env, ROOT))
    with vfs.Use(w.fs):
        loader = make(env, w)
        for n in NAMES:
            w.write(n, 900.0)
        for n in first:
            do_load(env, w, loader, n)
        for i in range(steps):
            change = env.choice("change%d" % i, changes)
            if change != "none":
                what, n = change.split(" ")
                if what == "delete":
                    w.delete(n)
                else:
                    m = env.int("m%d" % i, 0, 5) * 0.25 + 899.5
                    w.write(n, m, what == "replace")
            if toggle == i:
                w.reload = not w.reload
                loader.set_reload(w.reload)
            w.fs.now = w.fs.now + env.int("t%d" % i, 0, 4) * 0.125
            do_load(env, w, loader, env.choice("load%d" % i, NAMES))
        # at the end, long after: everything that is newer shows
        w.fs.now = w.fs.now + 1.0
        for n in NAMES:
            do_load(env, w, loader, n)
        try:
            loader.load("nope")
            env.fail("a name that resolves nowhere is loaded")
        except OSError as x:
            env.check(x.errno == 2, "a name that resolves nowhere raises ENOENT")
        env.check(w.fs.closed == len(w.fs.opened), "the files are closed")


def h_midway(env, name, what, target):
    """A file changes in the midst of a load."""
    w = World(env, True, vfs.VFS(ROOT))
    with vfs.Use(w.fs):
        loader = make(env, w)
        for n in NAMES:
            w.write(n, 900.0)
        if env.bool("before"):
            for n in NAMES:
                do_load(env, w, loader, n)
            w.fs.now = w.fs.now + 0.5
            w.write(name, 900.25)
        at = env.choice("at", list(range(1, 13)))
        m = env.int("m", 1, 3) * 0.25 + 900.25
        do_load(env, w, loader, name, (at, lambda: w.write(target, m, what == "replace")))
        w.fs.now = w.fs.now + 0.5
        do_load(env, w, loader, name)
        w.fs.now = w.fs.now + env.int("t", 0, 4) * 0.125
        do_load(env, w, loader, name)


def cases(tier):
    deep = tier == "thorough"
    mods = ["modify " + n for n in NAMES]
    dels = ["delete " + n for n in NAMES]
    for first in ([], ["a", "c"], ["b"], ["c", "b", "a"]):
        f = "".join(first)
        for ch in [["none"] + mods, dels + ["replace b"], ["modify b", "delete b", "replace a", "none"]]:
            for reload in (True, False):
                yield dict(name="history/%s/%s/%d" % (f, ch[-1], reload), fn="h_history", args=dict(first=first, steps=2, changes=ch, reload=reload, toggle=None), cost=100, samples=10)
        yield dict(name="toggle/%s" % f, fn="h_history", args=dict(first=first, steps=2, changes=["modify b", "none"], reload=False, toggle=0), cost=100, samples=10)
        yield dict(name="toggle2/%s" % f, fn="h_history", args=dict(first=first, steps=2, changes=["modify b", "none"], reload=True, toggle=1), cost=100, samples=10)
        if deep:
            for c0 in ["none", "modify a", "modify b", "modify c", "delete a", "delete b", "delete c", "replace b"]:
                yield dict(name="history3/%s/%s" % (f, c0), fn="h_history", args=dict(first=first, steps=3, changes=[c0, "modify b", "delete b", "modify a"], reload=True, toggle=None),
                           cost=1000, samples=10, budget=2000)
    for name in NAMES:
        for what in ("modify", "replace"):
            for target in {name, "b"}:
                yield dict(name="midway/%s/%s/%s" % (name, what, target), fn="h_midway", args=dict(name=name, what=what, target=target), cost=50, samples=10)
