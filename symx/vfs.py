"""A file system in memory below one directory, and a clock, both of which may hold symbolic times.

Installed over the functions that reach the file system and the clock; every other path goes to the real ones.
The same code serves symbolic runs and replays."""
import builtins
import errno
import io
import os
import os.path
import stat as stat_m
import time

REAL = {}


class Stat(object):
    __sx_cls__ = True

    def __init__(self, node, is_dir=False):
        self.st_mode = (stat_m.S_IFDIR | 0o755) if is_dir else (stat_m.S_IFREG | 0o644)
        self.st_size = 0 if is_dir else len(node.data.encode("utf-8"))
        self.st_ino = id(node)
        self.st_dev = 1
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        t = 0 if is_dir else node.mtime
        self.st_mtime = self.st_ctime = self.st_atime = t
        self.st_mtime_ns = self.st_ctime_ns = self.st_atime_ns = int(t * 1000000000) if isinstance(t, (int, float)) else t * 1000000000

    def __getitem__(self, i):
        if i in (7, 8, 9):
            t = self.st_mtime
            return int(t) if isinstance(t, (int, float)) else t.__class__(_toint(t))
        return [self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid, self.st_size][i]


def _toint(t):
    import z3
    return z3.ToInt(t.e)


class Node(object):
    def __init__(self, data, mtime):
        self.data = data
        self.mtime = mtime


class RawFile(io.RawIOBase):
    def __init__(self, fs, node, path):
        self.fs = fs
        self.node = node
        self.name = path
        self.buf = None
        self.pos = 0
        self.fd = fs.newfd(node)

    def fileno(self):
        return self.fd

    def readable(self):
        return True

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        if self.buf is None:
            self.fs.hook("read", self.name)
            self.buf = self.node.data.encode("utf-8")
            self.fs.reads.append(self.name)
        n = min(len(b), len(self.buf) - self.pos)
        b[:n] = self.buf[self.pos:self.pos + n]
        self.pos += n
        return n

    def seek(self, off, whence=0):
        if self.buf is None:
            self.buf = self.node.data.encode("utf-8")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.buf) + off
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        if not self.closed:
            self.fs.fds.pop(self.fd, None)
            self.fs.closed += 1
        io.RawIOBase.close(self)


class VFS(object):
    def __init__(self, root="/vfs"):
        self.root = root
        self.nodes = {}
        self.dirs = {root}
        self.fds = {}
        self.next = 900000
        self.now = 0
        self.calls = 0
        self.pending = None     # (call number, function): something that happens in the midst of a load
        self.opened = []
        self.reads = []
        self.closed = 0

    # the outside
    def write(self, path, data, mtime, replace=False):
        n = self.nodes.get(path)
        if n is None or replace:
            self.nodes[path] = Node(data, mtime)
        else:
            n.data = data
            n.mtime = mtime
        d = os.path.dirname(path)
        while d.startswith(self.root):
            self.dirs.add(d)
            d = os.path.dirname(d)

    def delete(self, path):
        self.nodes.pop(path, None)

    def newfd(self, node):
        self.next += 1
        self.fds[self.next] = node
        return self.next

    def hook(self, what, path):
        """Called before every operation of the loader on a file of this system."""
        self.calls += 1
        if self.pending is not None and self.calls == self.pending[0]:
            f = self.pending[1]
            self.pending = None
            f()

    # the functions
    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + "/")

    def path(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p)

    def stat(self, path, *a, **k):
        if not self.mine(path):
            return REAL["stat"](path, *a, **k)
        if isinstance(path, int):
            return self.fstat(path)
        p = self.path(path)
        self.hook("stat", p)
        n = self.nodes.get(p)
        if n is not None:
            return Stat(n)
        if p in self.dirs:
            return Stat(self, True)
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)

    def fstat(self, fd, *a, **k):
        if fd not in self.fds:
            return REAL["fstat"](fd, *a, **k)
        self.hook("fstat", fd)
        return Stat(self.fds[fd])

    def access(self, path, *a, **k):
        if not self.mine(path):
            return REAL["access"](path, *a, **k)
        p = self.path(path)
        self.hook("access", p)
        return p in self.nodes or p in self.dirs

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = self.path(file)
        self.hook("open", p)
        self.opened.append(p)
        n = self.nodes.get(p)
        if n is None:
            if p in self.dirs:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        raw = RawFile(self, n, p)
        if buffering == 0:
            return raw
        f = io.BufferedReader(raw)
        if "b" in mode:
            return f
        return io.TextIOWrapper(f, encoding or "utf-8", errors, newline)

    def time(self):
        return self.now

    def time_ns(self):
        return self.now * 1000000000

    def listdir(self, path="."):
        if not self.mine(path):
            return REAL["listdir"](path)
        p = self.path(path) + "/"
        return sorted({x[len(p):].split("/")[0] for x in list(self.nodes) + list(self.dirs) if x.startswith(p)})

    def exists(self, p):
        p = os.path.normpath(p)
        return p in self.nodes or p in self.dirs


CUR = None          # the installed file system
FILES = True


def _dispatch(name, method, files):
    def f(*a, **k):
        if CUR is None or (files and not FILES):
            return REAL[name](*a, **k)
        return getattr(CUR, method)(*a, **k)
    f.__name__ = f.__qualname__ = name
    f.__module__ = "symx.vfs"
    return f


PLACES = [(os, "stat", "stat"), (os, "lstat", "stat"), (os, "fstat", "fstat"), (os, "access", "access"), (os, "listdir", "listdir"),
          (builtins, "open", "open"), (time, "time", "time"), (time, "monotonic", "time"), (time, "perf_counter", "time"),
          (time, "time_ns", "time_ns"), (time, "monotonic_ns", "time_ns")]


def install():
    """Once, before the code under test is imported."""
    if REAL:
        return
    for mod, name, method in PLACES:
        REAL[name] = getattr(mod, name)
        setattr(mod, name, _dispatch(name, method, mod is not time))
    io.open = builtins.open


class Use(object):
    """with Use(fs): ...   The clock of fs and, unless files is False, its files."""
    __sx_cls__ = True

    def __init__(self, fs, files=True):
        self.fs = fs
        self.files = files

    def __enter__(self):
        global CUR, FILES
        CUR, FILES = self.fs, self.files
        return self.fs

    def __exit__(self, *a):
        global CUR
        CUR = None
        return False


class RealFS(object):
    """The same interface over a real directory of its own, for replays."""

    def __init__(self):
        import tempfile
        self.dir = tempfile.TemporaryDirectory(prefix="symx-vfs-")
        self.root = os.path.realpath(self.dir.name)
        self.now = 0
        self.opened = []
        self.pending = None
        self.calls = 0

    closed = property(lambda self: len(self.opened))

    def write(self, path, data, mtime, replace=False):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        name = path + ".new" if replace else path
        with REAL["open"](name, "w", encoding="utf-8") as f:
            f.write(data)
        os.utime(name, (mtime, mtime))
        if replace:
            os.replace(name, path)

    def delete(self, path):
        if REAL["access"](path, os.F_OK):
            os.unlink(path)

    def exists(self, path):
        return REAL["access"](path, os.F_OK)

    def open(self, file, *a, **k):
        if isinstance(file, str) and file.startswith(self.root):
            self.opened.append(os.path.normpath(file))
        return REAL["open"](file, *a, **k)

    def stat(self, *a, **k):
        return REAL["stat"](*a, **k)

    def fstat(self, *a, **k):
        return REAL["fstat"](*a, **k)

    def access(self, *a, **k):
        return REAL["access"](*a, **k)

    def listdir(self, *a, **k):
        return REAL["listdir"](*a, **k)

    def time(self):
        return self.now

    def time_ns(self):
        return int(self.now * 1000000000)


def system(env, root):
    """Files for a harness: in memory in symbolic runs, real ones in replays."""
    return VFS(root) if env.symbolic else RealFS()
