"""C17 The C speed-up buffer is memory-safe and matches the Python buffer."""
import gc
import os
import sys

from symx import cenv
from props.common import UNICODE

PRELOAD = ["tonnikala.runtime.python"]
OPTS = {"trust": "C: ", "replay_env": {"PYTHONMALLOC": "debug"}}

BOUNDS = ("C: _buffer.c as clang's intermediate code against the real headers; operations call, output_boolean_attr, join, str, __html__, construction, destruction, the buffer member, "
          "_set_escape_method and the module's initialisation; every combination of ten kinds of up to 2 (thorough 3) arguments, strings of 0..1 (thorough 0..2) characters of all of Unicode, "
          "reference counts of the arguments of 1..2^30, buffers with 0..2 pieces; sequences of 2 (thorough 3) operations; user code (str and escape) that returns a string, a subclass, another object, raises or "
          "itself uses the buffers; any one allocation of an operation fails.  Python: the same operations and arguments without the failures of allocations")
OUTSIDE = "threads; subinterpreters and module reloading; reference cycles; keywords to output_boolean_attr; objects that lie about __class__; leaks when importing fails for lack of memory"
ASSUMPTIONS = ["symx/cpy.py models the functions of CPython's C API that the file calls; replays run the real extension, built in a scratch directory, with Python's debugging allocator"]

KINDS = ["str", "sub", "other", "raises", "badstr", "none", "true", "false", "b0", "b1", "tuple"]
SOURCE = "/repo/tonnikala/runtime/_buffer.c"
MODULE = []


def ir():
    from symx import clir
    if not MODULE:
        MODULE.append(clir.Module(clir.compile_ir(SOURCE, "/usr/include/python3.12")))
    return MODULE[0]


class Other(object):
    def __init__(self, f):
        self.f = f

    def __str__(self):
        return self.f("str", self)


# ------------------------------------------------------------------ drivers
class PyDrv(object):
    """The pure Python buffer."""
    name = "py"

    def __init__(self, env):
        self.env = env
        self.P = env.mod("tonnikala.runtime.python")
        self.saved = self.P.escape
        self.P.escape = self.escape
        self.user = None
        self.handles = []

    def close(self):
        self.P.escape = self.saved

    def escape(self, v):
        r = self.user("escape", v)
        return r

    def value(self, kind, text):
        if kind == "str":
            return text
        if kind == "sub":
            return self.env.mod("markupsafe").Markup(text)
        if kind == "tuple":
            return ()
        return Other(lambda what, o: self.user(what, o))

    def const(self, kind):
        return {"none": None, "true": True, "false": False}[kind]

    def run(self, f):
        try:
            return "ok", f()
        except (TypeError, ValueError) as e:
            return "raise", "TypeError" if isinstance(e, TypeError) else "ValueError"

    def new(self):
        return self.P._TKPythonBufferImpl()

    def call(self, b, args, kw=None):
        if kw:
            return self.run(lambda: b(*args, x=1))
        return self.run(lambda: b(*args, **{}) if kw == 0 else b(*args))

    def attr(self, b, args):
        return self.run(lambda: b.output_boolean_attr(*args))

    def join(self, b):
        return self.run(lambda: b.join())

    def str(self, b):
        return self.run(lambda: str(b))

    def html(self, b):
        return self.run(lambda: b.__html__() is b)

    def result_text(self, r):
        return r

    def is_none(self, r):
        return r is None

    def release(self, h):
        pass

    def keep(self, h):
        return h

    def finish(self):
        pass


class RealDrv(PyDrv):
    """The extension, compiled."""
    name = "real"
    mod = None

    def __init__(self, env, escape="set"):
        self.env = env
        self.P = None
        self.user = None
        self.C = self.build()
        self.counted = []
        self.escapes = []
        if escape == "set":
            self.C._set_escape_method(self.escape_function())
        elif escape == "none":
            self.C._set_escape_method(None)
        else:
            self.C._set_escape_method(object())

    def escape_function(self):
        def escape(v):
            return self.user("escape", v)
        return escape

    def close(self):
        self.C._set_escape_method(None)

    @staticmethod
    def build():
        if RealDrv.mod is None:
            import importlib.util
            import shutil
            import subprocess
            import tempfile
            d = tempfile.mkdtemp(prefix="symx-c17-")
            try:
                so = os.path.join(d, "_buffer.so")
                subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-g", "-w", "-I/usr/include/python3.12", SOURCE, "-o", so], check=True)
                spec = importlib.util.spec_from_file_location("_buffer", so)
                RealDrv.mod = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(RealDrv.mod)
            finally:
                shutil.rmtree(d)
        return RealDrv.mod

    def value(self, kind, text):
        if kind == "str":
            v = "".join([text, "ab"])[:len(text)] if len(text) != 1 else text
        elif kind == "sub":
            from markupsafe import Markup
            v = Markup(text)
        elif kind == "tuple":
            return ()
        else:
            v = Other(lambda what, o: self.user(what, o))
        self.counted.append(v)
        return v

    def new(self):
        return self.C.Buffer()

    def run(self, f):
        try:
            return "ok", f()
        except (TypeError, ValueError, MemoryError, SystemError, RuntimeError) as e:
            if isinstance(e, SystemError):
                self.env.fail("C: " + str(e))
            return "raise", type(e).__name__

    def finish(self):
        # leaks are found by repetition (in_child)
        for i in range(len(self.counted)):
            n = sys.getrefcount(self.counted[i])
            self.env.check(n >= 2, "C: no argument is released too often")


class CDrv(object):
    """The extension as the interpreter of symx runs it."""
    name = "c"
    replaced = False

    def __init__(self, env, escape="set", nomem=False):
        from symx import cpy, clir
        self.env = env
        self.cpy = cpy
        self.clir = clir
        self.py = cpy.CPython(ir(), env.ex)
        self.py.callback = self.callback
        self.user = None
        self.counted = []
        self.texts = {}
        py = self.py
        self.module = py.import_module("_buffer")
        if not self.module:
            raise clir.CFault("the module cannot be imported")
        py.check_result(self.module)
        self.type = py.objs[self.module].data["attrs"]["Buffer"]
        self.escape_obj = None
        if escape == "set":
            self.escape_obj = py.other({}, call=True)
            self.count(self.escape_obj, "escape")
            self.set_escape([self.escape_obj])
        elif escape == "uncallable":
            self.escape_obj = py.other({})
            self.count(self.escape_obj, "escape")
            self.set_escape([self.escape_obj])
        self.base = set(py.live)

    def count(self, a, name):
        import z3
        n = "ref.%s.%d" % (name, len(self.counted))
        v = z3.BitVec(n, 64)
        ax = z3.And(z3.UGE(v, 1), z3.ULE(v, 1 << 30))
        self.env.axioms.setdefault(n, ((1, 1 << 30), ax))
        self.env.ex._assume_raw(ax, None)
        self.py.st(a, self.clir.BV(v, 64, 1, 1 << 30))
        self.counted.append((a, v, name))

    def set_escape(self, args):
        py = self.py
        d = py.objs[self.module].data["definition"]
        p = py.ld(d + 64)
        while py.ld(p):
            if py.m.cstr(py.ld(p)) == "_set_escape_method":
                return self.outcome(py.call_method_def((py.ld(p + 8), py.ld(p + 16, 4)), self.module, args))
            p += 32
        raise self.clir.Unmodelled("_set_escape_method is missing")

    def close(self):
        pass

    def callback(self, what, o):
        try:
            r = self.user(what, o)
        except (TypeError, ValueError) as e:
            return "raise", "TypeError" if isinstance(e, TypeError) else "ValueError"
        return r

    def value(self, kind, text):
        py = self.py
        if kind == "str":
            a = py.str(text, may_fail=False)
        elif kind == "sub":
            a = py.str(text, py.markup_type(), may_fail=False)
        elif kind == "tuple":
            a = py.tuple([], may_fail=False)
        else:
            a = py.other({})
        self.base.add(a)
        self.count(a, kind)
        return a

    def const(self, kind):
        return {"none": self.py.none, "true": self.py.true, "false": self.py.false}[kind]

    def outcome(self, r):
        self.py.check_result(r)
        if r == 0:
            e, self.py.err = self.py.err, None
            return "raise", e
        return "ok", r

    def new(self):
        k, r = self.outcome(self.py.instantiate(self.type))
        return r if k == "ok" else None

    def call(self, b, args, kw=None):
        py = self.py
        t = py.tuple(args, may_fail=False)
        d = py.dict(kw) if kw is not None else 0
        r = self.outcome(py.call_object(b, t, d))
        py.decref(t)
        if d:
            py.decref(d)
        return r

    def attr(self, b, args):
        return self.outcome(self.py.call_method(b, "output_boolean_attr", args))

    def join(self, b):
        return self.text_of(self.outcome(self.py.call_method(b, "join", [])))

    def str(self, b):
        return self.text_of(self.outcome(self.py.to_str(b)))

    def text_of(self, r):
        if r[0] != "ok":
            return r
        if self.py.kind(r[1]) != "str":
            raise self.clir.CFault("what is joined is no string")
        t = self.py.objs[r[1]].text
        self.py.decref(r[1])
        return "ok", t

    def html(self, b):
        k, r = self.outcome(self.py.call_method(b, "__html__", []))
        if k != "ok":
            return k, r
        self.py.decref(r)
        return k, r == b

    def is_none(self, r):
        return r == self.py.none

    def release(self, h):
        if h:
            self.py.decref(h)

    def keep(self, h):
        return self.py.incref(h)

    def finish(self):
        import z3
        from symx.core import Formula
        py = self.py
        left = [py.m.blocks[a >> 20].what for a in py.live - self.base]
        self.env.check(not left, "C: everything that was acquired is released, but " + ", ".join(left))
        for a, v, name in self.counted:
            cur = py.ld(a)
            extra = 1 if name == "escape" and not self.replaced else 0
            self.env.check(Formula(self.clir.term(cur, 64) == v + extra), "C: the reference count of an argument (%s) is as it was" % name)


def driver(env, impl, **k):
    if impl == "py":
        return PyDrv(env)
    return CDrv(env, **k) if env.symbolic else RealDrv(env, **{a: b for a, b in k.items() if a != "nomem"})


def in_child(env, body, leaks=True):
    """Replays of C code: in a process of their own, several times for leaks, with what happens reported."""
    import pickle
    r, w = os.pipe()
    RealDrv.build()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        # whatever broken code does, it ends soon
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
        res = ("ok", "", [])
        try:
            from array import array
            blocks = array("q", [0] * 24)
            for i in range(24):
                e = cenv.ConcEnv(dict(env.given), env.rng) if i else env
                body(e)
                if i >= 8:
                    e = None
                    gc.collect()
                    blocks[i] = sys.getallocatedblocks()
            if leaks and all(y > x for x, y in zip(blocks[8:], blocks[9:])):
                res = ("fail", "C: memory is leaked", [])
            else:
                res = ("ok", "", env.obs)
        except cenv.Assume:
            res = ("assume", "", [])
        except cenv.Fail as e:
            res = ("fail", e.msg + " " + e.detail, [])
        except BaseException as e:
            import traceback
            res = ("fail", "C: unexpected " + repr(e) + traceback.format_exc()[-500:], [])
        data = pickle.dumps((res, env.given, env.checks))
        os.write(w, data[:60000])
        os._exit(0)
    os.close(w)
    data = b""
    try:
        while True:
            c = os.read(r, 65536)
            if not c:
                break
            data += c
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        env.fail("C: the process died (status %d)" % st)
    (k, msg, obs), given, checks = pickle.loads(data)
    env.given.update(given)
    env.checks += checks
    if k == "assume":
        raise cenv.Assume()
    if k == "fail":
        raise cenv.Fail(msg)
    env.obs.extend(obs)


def guarded(env, impl, body, leaks=True):
    if impl == "py":
        body(env)
    elif not env.symbolic:
        in_child(env, body, leaks)
    else:
        from symx import clir
        try:
            body(env)
        except clir.CFault as e:
            env.fail("C: " + str(e))


# ------------------------------------------------------------------ the scenario
class World(object):
    """Arguments, buffers, what user code does, and the expected contents."""

    def __init__(self, env, impl, n, behaviour="plain", **k):
        self.env = env
        self.impl = impl
        self.n = n
        self.d = driver(env, impl, **k)
        self.d.user = self.user
        self.behaviour = behaviour
        self.results = {}        # (what, kind of the object) -> the text that its str is, or the exception
        self.text = [None, None]
        self.buf = [None, None]
        self.objs = {}
        self.labels = {}
        self.vague = False
        self.active = True
        self.depth = 0

    # arguments
    def arg(self, i, kind):
        if kind in ("b0", "b1"):
            return self.buf[int(kind[1])]
        if kind in ("none", "true", "false"):
            return self.d.const(kind)
        text = ""
        if kind in ("str", "sub"):
            text = self.env.str("arg%d" % i, self.n, UNICODE)
        h = self.d.value(kind, text)
        self.objs[i] = (kind, h, text)
        self.labels[self.ident(h)] = (i, kind)
        return h

    def ident(self, h):
        return h if type(h) is int else id(h)

    def fill(self, b, pieces):
        """A buffer with pieces in it."""
        self.buf[b] = self.d.new()
        self.text[b] = ""
        for j in range(pieces):
            s = self.env.str("piece%d.%d" % (b, j), 1, UNICODE)
            h = self.d.value("str", s)
            r = self.d.call(self.buf[b], [h])
            self.text[b] = self.text[b] + s
            self.d.release(r[1]) if r[0] == "ok" and self.impl == "c" and self.env.symbolic else None
            h = None

    # user code
    def user(self, what, o):
        lab = self.labels.get(self.ident(o), (9, "const"))
        key = (what, lab[0])
        if self.behaviour == "reentrant" and self.depth == 0 and self.active:
            self.depth = 1
            self.reenter(what)
            self.depth = 0
        if what == "str":
            if lab[1] == "raises":
                self.results[key] = ("raise", "ValueError")
                raise ValueError("user code")
            if lab[1] == "badstr":
                self.results[key] = ("raise", "TypeError")
                if self.impl == "c" and self.env.symbolic:
                    return "object", self.d.py.none
                return None
            if key not in self.results:
                # a function of the object
                self.results[key] = ("ok", self.env.str("str%d" % lab[0], self.n, UNICODE))
            return self.give("str", self.results[key][1])
        how = self.env.choice("escape.how", ["sub", "str", "raise", "object", "none", "b1", "same"])
        if how == "raise":
            self.results[key] = ("raise", "ValueError")
            raise ValueError("user code")
        if how in ("sub", "str"):
            t = self.env.str("escaped", self.n, UNICODE)
            self.results[key] = ("ok", t)
            return self.give(how, t)
        if how == "none":
            self.results[key] = ("ok", "None")
            return self.obj(self.d.const("none"))
        if how == "b1":
            self.results[key] = ("buffer", self.text[1])
            return self.obj(self.buf[1])
        if how == "same":
            self.results[key] = ("same", None)
            return self.obj(o)
        # another object, whose str is asked for
        h = self.d.value("other", "")
        self.labels[self.ident(h)] = (7, "other")
        self.objs[7] = ("other", h, "")
        self.results[key] = ("str", 7)
        return self.obj(h)

    def obj(self, h):
        if self.impl == "c" and self.env.symbolic:
            return "object", h
        return h

    def give(self, kind, text):
        if self.impl == "c" and self.env.symbolic:
            return kind, text
        if kind == "sub":
            return self.env.mod("markupsafe").Markup(text)
        return text

    def reenter(self, what):
        act = self.env.choice("reenter." + what, ["append", "self", "other", "join", "escape", "nothing"])
        d = self.d
        b = self.buf[0]
        if act == "append":
            h = d.value("str", self.env.str("again", 1, UNICODE))
            self.done(d.call(b, [h]))
        elif act == "self":
            self.done(d.call(b, [b]))
        elif act == "other":
            self.done(d.call(self.buf[1], [b]))
        elif act == "join":
            d.join(b)
        elif act == "escape" and self.impl == "c":
            if self.env.symbolic:
                self.done(d.set_escape([d.py.none]))
                d.replaced = True
            else:
                d.C._set_escape_method(None)
        if act != "nothing":
            self.vague = True

    def done(self, r):
        """An outcome whose result is not used."""
        if self.impl == "c" and self.env.symbolic and r[0] == "ok":
            self.d.release(r[1])

    # what is expected
    def str_of(self, i, kind):
        """-> ("ok", text) or ("raise", kind)"""
        if kind in ("b0", "b1"):
            return "ok", self.text[int(kind[1])]
        if kind in ("none", "true", "false"):
            return "ok", {"none": "None", "true": "True", "false": "False"}[kind]
        if kind in ("str", "sub"):
            return "ok", self.objs[i][2]
        if kind == "tuple":
            return "ok", "()"
        return self.results.get(("str", i), ("missing", None))

    def expect_out(self, b, kinds):
        new = self.text[b]
        for i, k in enumerate(kinds):
            r = self.str_of(i, k)
            if r[0] == "missing":
                self.env.fail("C: user code was not asked for the text of an argument" if self.impl == "c" else "the text of an argument was not asked for")
            if r[0] == "raise":
                self.text[b] = new
                return r
            # a buffer that is put into itself: with what it contains by then
            new = new + (new if k == "b%d" % b else r[1])
        self.text[b] = new
        return "ok", None

    def expect_attr(self, b, kinds):
        """-> outcome; text None: not defined"""
        if len(kinds) != 2:
            return "raise", "TypeError"
        if kinds[1] in ("none", "false"):
            return "ok", None
        if kinds[1] == "true":
            value = self.str_of(0, kinds[0])
        else:
            e = self.results.get(("escape", 9 if kinds[1] in ("b0", "b1") and False else self.label_of(1, kinds)))
            if e is None:
                self.env.fail("the escape function was not asked")
            if e[0] == "raise":
                # nothing was put out
                return e
            if e[0] == "same":
                value = self.str_of(self.label_of(1, kinds), kinds[1])
            elif e[0] == "str":
                value = self.str_of(e[1], "other")
            else:
                if e[0] == "buffer" and b == 1:
                    self.vague = True
                value = ("ok", e[1])
        name = self.str_of(0, kinds[0])
        for r in (name, value):
            if r[0] == "raise":
                self.vague = True
                return r
        if name[0] == "missing" or value[0] == "missing":
            self.env.fail("the text of a name or value was not asked for")
        if "b%d" % b in kinds or self.results.get(("escape", self.label_of(1, kinds)), ("", 0))[0] == "same" and kinds[1] == "b%d" % b:
            # the name or value is the buffer itself: any of its states on the way
            self.vague = True
        self.text[b] = self.text[b] + " " + name[1] + '="' + value[1] + '"'
        return "ok", None

    def label_of(self, i, kinds):
        return self.labels.get(self.ident(self.handles[i]), (9, ""))[0]

    def compare(self, b, how="join"):
        r = self.d.join(self.buf[b]) if how == "join" else self.d.str(self.buf[b])
        if r[0] != "ok":
            self.env.fail("join raises " + r[1])
        if not self.vague:
            self.env.eq(r[1], self.text[b], "the text that is joined")

    def close(self):
        self.active = False
        for b in (0, 1):
            if self.buf[b] is not None:
                if self.impl == "c" and self.env.symbolic:
                    self.d.release(self.buf[b])
                self.buf[b] = None
        self.d.finish()
        self.d.close()


def operate(env, w, op, kinds, b=0):
    """One operation with all that is expected of it."""
    d = w.d
    handles = [w.arg(i, k) for i, k in enumerate(kinds)]
    w.handles = handles
    if op == "out":
        r = d.call(w.buf[b], handles)
        want = w.expect_out(b, kinds) if not w.vague else None
    else:
        r = d.attr(w.buf[b], handles)
        want = w.expect_attr(b, kinds) if not w.vague else None
    w.done(r)
    if want is not None and want[0] == "ok" or r[0] == "ok":
        env.check(r[0] != "ok" or d.is_none(r[1]), "the result is None")
    if want is not None:
        env.check(r[0] == want[0] and (r[0] == "ok" or r[1] == want[1]), "it raises what it is to raise, or nothing")
    handles = w.handles = None


def single(env, impl, op, kinds, n, pieces, behaviour="plain", escape="set"):
    def body(env):
        k = {} if impl == "py" else {"escape": escape}
        w = World(env, impl, n, behaviour, **k)
        w.fill(0, pieces)
        w.fill(1, 2)
        if escape != "set" and op == "attr":
            handles = [w.arg(i, k) for i, k in enumerate(kinds)]
            r = w.d.attr(w.buf[0], handles)
            w.done(r)
            handles = None
            env.check(r[0] == "raise" and r[1] == "TypeError", "an escape function that is not callable is a TypeError")
        else:
            operate(env, w, op, kinds)
        w.compare(0)
        w.compare(1, "str")
        env.reach("end")
        w.close()
    guarded(env, impl, body)


def sequence(env, impl, ops, n):
    def body(env):
        w = World(env, impl, n)
        w.fill(0, 0)
        w.fill(1, 1)
        d = w.d
        for op in ops:
            for b in (0, 1):
                if w.buf[b] is None and op != "new%d" % b:
                    w.fill(b, 0)
            if op == "html":
                r = d.html(w.buf[0])
                env.check(r[0] == "ok" and r[1], "__html__ returns the buffer")
            elif op in ("new0", "drop0", "new1", "drop1"):
                b = int(op[-1])
                d.release(w.buf[b]) if impl == "c" and env.symbolic else None
                w.buf[b] = None
                w.fill(b, 0)
            elif op in ("kw0", "kw1"):
                h = d.value("str", env.str("kw", n, UNICODE))
                r = d.call(w.buf[0], [h], int(op[2]))
                w.done(r)
                if op == "kw1":
                    env.check(r[0] == "raise" and r[1] == "TypeError", "keywords are a TypeError")
                else:
                    env.check(r[0] == "ok", "no keywords are no error")
                    w.text[0] = w.text[0] + env_text(d, h)
                h = None
            elif op == "join":
                w.compare(0)
            elif op == "str":
                w.compare(0, "str")
            else:
                b, what, kinds = op
                # texts have names of their own in each operation
                operate(env, w, what, list(kinds), b)
                w.objs.clear()
                w.results.clear()
        w.compare(0)
        w.compare(1, "str")
        env.reach("end")
        w.close()
    guarded(env, impl, body)


def env_text(d, h):
    return d.py.objs[h].text if isinstance(d, CDrv) else h


def nomem(env, op, kinds, n, pieces):
    """Any allocation of one operation fails."""
    def body(env):
        at = env.int("fails", 0, 12)
        w = World(env, "c", n, "plain")
        d = w.d
        w.fill(0, pieces)
        w.fill(1, 1)
        handles = [w.arg(i, k) for i, k in enumerate(kinds)]
        if env.symbolic:
            d.py.fail_at = at.e
            d.py.failing = True
            r = do(d, w, op, handles)
            d.py.failing = False
            if d.py.failed:
                env.check(r is None or r[0] == "raise", "C: a failed allocation is an exception")
                env.reach("failed")
            if isinstance(r, tuple) and r[0] == "ok" and type(r[1]) is int and op not in ("join", "str", "html"):
                d.release(r[1])
        else:
            # which allocation of the interpreter it is cannot be known: each
            import _testcapi
            d.user = lambda what, o: "a text"
            for k in range(40):
                r = None
                b = d.C.Buffer()
                b(*["pq"] * pieces)
                f = {"out": b, "attr": b.output_boolean_attr, "join": b.join, "str": b.__str__, "html": b.__html__, "new": d.C.Buffer}[op]
                args = [b if h is w.buf[0] else h for h in handles]
                try:
                    _testcapi.set_nomemory(k, k + 1)
                    r = f(*args)
                except MemoryError:
                    pass
                except SystemError as e:
                    _testcapi.remove_mem_hooks()
                    env.fail("C: " + str(e))
                finally:
                    _testcapi.remove_mem_hooks()
                r = None
            b = f = args = None
        handles = None
        # the buffers can be used
        w.vague = True
        w.compare(0)
        w.compare(1)
        env.check(True, "end")
        env.reach("end")
        w.close()
    # CPython 3.12's own list.extend leaks its argument when an allocation fails
    guarded(env, "c", body, False)


def do(d, w, op, handles):
    if op == "out":
        return d.call(w.buf[0], handles)
    if op == "attr":
        return d.attr(w.buf[0], handles)
    if op == "join":
        return d.join(w.buf[0])
    if op == "str":
        return d.str(w.buf[0])
    if op == "html":
        return d.html(w.buf[0])
    if op == "new":
        b = d.new()
        return ("ok", b) if b else ("raise", "")


def module(env, what):
    """The module itself."""
    def body(env):
        if env.symbolic:
            from symx import cpy, clir
            if what == "init":
                py = cpy.CPython(ir(), env.ex)
                py.fail_at = env.int("fails", 0, 12).e
                py.failing = True
                m = py.import_module("_buffer")
                py.check_result(m)
                env.check(not (py.failed and m), "C: a failure is an exception")
                env.check(py.failed or m != 0, "C: where nothing fails there is a module")
                env.reach("end")
                return
            d = CDrv(env, escape="set" if what != "unset" else "none")
            d.user = lambda w, o: ("str", "x")
            py = d.py
            if what == "lost":
                py.module_found = False
                r = d.outcome(py.instantiate(d.type))
                env.check(r[0] == "raise", "C: without the module there is no buffer")
            elif what == "unset":
                b = d.new()
                s = d.value("str", "a")
                r = d.attr(b, [s, s])
                env.check(r == ("raise", "TypeError"), "C: without an escape function")
                r = d.attr(b, [s, py.true])
                env.check(r[0] == "ok", "C: a boolean attribute is not escaped")
                d.release(b)
            elif what == "arguments":
                for n in (0, 2):
                    r = d.set_escape([py.none] * n)
                    env.check(r == ("raise", "TypeError"), "C: the number of arguments")
            elif what == "replace":
                # the old escape function makes a buffer while it is deleted
                made = []
                old = py.other({"on_delete": lambda: made.append(d.new())}, call=True)
                r = d.set_escape([old])
                d.replaced = True
                env.check(r[0] == "ok", "C: the escape function is set")
                py.decref(old)
                new = py.other({}, call=True)
                d.count(new, "new")
                r = d.set_escape([new])
                env.check(r[0] == "ok", "C: the escape function is set")
                env.check(len(made) == 1, "C: the old one is deleted")
                if made[0]:
                    d.release(made[0])
                r = d.set_escape([py.none])
                d.base.add(new)
            elif what == "member":
                b = d.new()
                s = d.value("str", "a")
                d.release(d.call(b, [s])[1])
                mem = py.members(d.type)
                for name, (t, off, fl) in mem.items():
                    how = env.choice("set." + name, ["delete", "tuple", "nothing"])
                    if not fl & 1 and how != "nothing":
                        # what setattr does
                        old = py.ld(b + off)
                        if how == "delete":
                            py.st(b + off, 0)
                        else:
                            py.st(b + off, py.tuple([], may_fail=False))
                        py.xdecref(old)
                other = d.new()
                for args in ([other], [s, b], [other, s]):
                    r = d.call(b, args)
                    if r[0] == "ok":
                        d.release(r[1])
                    d.join(b)
                d.release(other)
                d.release(b)
            d.finish()
            env.check(True, "end")
            env.reach("end")
            return
        C = RealDrv.build()
        if what == "replace":
            class Old(object):
                def __call__(self, v):
                    return v

                def __del__(self):
                    C.Buffer()
            C._set_escape_method(Old())
            C._set_escape_method(str)
        elif what == "member":
            for f in (lambda b: setattr(b, "buffer", ()), lambda b: delattr(b, "buffer")):
                b = C.Buffer()
                try:
                    f(b)
                except AttributeError:
                    pass
                try:
                    b(C.Buffer())
                    b("a", b)
                    b.join()
                except (TypeError, SystemError, AttributeError):
                    pass
        elif what == "arguments":
            for n in (0, 2):
                try:
                    C._set_escape_method(*[None] * n)
                    env.fail("C: the number of arguments")
                except TypeError:
                    pass
        elif what == "unset":
            C._set_escape_method(None)
            b = C.Buffer()
            try:
                b.output_boolean_attr("a", "a")
                env.fail("C: without an escape function")
            except TypeError:
                pass
    guarded(env, "c", body)


def cases(tier):
    try:
        if "tonnikala" not in sys.modules and "z3" in sys.modules:
            ir()
    except ImportError:
        pass
    thorough = tier == "thorough"
    sizes = (0, 1, 2) if thorough else (0, 1)
    for impl in ("c", "py"):
        lists = [[]] + [[k] for k in KINDS] + [[a, b] for a in KINDS for b in KINDS]
        if thorough:
            few = ["str", "other", "raises", "b0", "b1", "none"]
            lists += [[a, b, c] for a in few for b in few for c in few]
        for kinds in lists:
            for op in ("out", "attr"):
                for n in sizes if len(kinds) < 3 else (1,):
                    if n != 1 and not any(k in ("str", "sub", "other") for k in kinds):
                        continue
                    yield dict(name="%s-%s-%s-%d" % (impl, op, ".".join(kinds), n), fn="single",
                               args=dict(impl=impl, op=op, kinds=kinds, n=n, pieces=1), reach=("end",), cost=len(kinds))
        for kinds in ([["str", "other"], ["other", "other"], ["other", "str"], ["b0", "other"], ["other", "b0"], ["other", "true"]]):
            for op in ("out", "attr"):
                yield dict(name="%s-reentrant-%s-%s" % (impl, op, ".".join(kinds)), fn="single",
                           args=dict(impl=impl, op=op, kinds=kinds, n=1, pieces=1, behaviour="reentrant"), reach=("end",), cost=5)
        steps = ["html", "new0", "new1", "kw0", "kw1", "join", "str"]
        ops = [(b, what, tuple(k)) for b in (0, 1) for what, k in (("out", ["b0"]), ("out", ["b1"]), ("out", ["str", "b1"]), ("out", ["other"]), ("out", ["raises"]),
                                                              ("attr", ["str", "true"]), ("attr", ["str", "str"]), ("attr", ["str", "b1"]), ("attr", ["str", "none"]))]
        allops = steps + ops
        for a in allops:
            for c in allops:
                if a in steps and c in steps and a != "kw0":
                    continue
                for e in (allops if thorough else [None]):
                    seq = [a, c] + ([e] if e else [])
                    yield dict(name="%s-seq-%s" % (impl, "/".join(o if isinstance(o, str) else "%d%s%s" % (o[0], o[1], ".".join(o[2])) for o in seq)),
                               fn="sequence", args=dict(impl=impl, ops=seq, n=1), reach=("end",), cost=1)
    for escape in ("none", "uncallable"):
        for kinds in (["str", "str"], ["str", "b0"], ["other", "other"]):
            yield dict(name="c-escape-%s-%s" % (escape, ".".join(kinds)), fn="single", args=dict(impl="c", op="attr", kinds=kinds, n=1, pieces=1, escape=escape), reach=("end",))
    for op, kinds in [("out", ["str"]), ("out", ["sub"]), ("out", ["b1"]), ("out", ["b0"]), ("out", ["none", "str"]), ("out", ["other", "b1"]), ("out", ["tuple", "sub"]), ("attr", ["str", "str"]),
                      ("attr", ["str", "true"]), ("attr", ["sub", "sub"]), ("attr", ["str", "b1"]), ("attr", ["other", "other"]), ("attr", ["b1", "tuple"]), ("join", []), ("str", []), ("html", []), ("new", [])]:
        for pieces in (0, 2):
            yield dict(name="c-nomem-%s-%s-%d" % (op, ".".join(kinds), pieces), fn="nomem", args=dict(op=op, kinds=kinds, n=1, pieces=pieces), reach=("end",), timeout=30)
    for what in ("init", "lost", "unset", "arguments", "replace", "member"):
        yield dict(name="c-module-" + what, fn="module", args=dict(what=what), reach=("end",))
