"""CPython's C API for clir.Machine: objects with the layout of the real headers, reference counts, exceptions and failing allocations.

The semantics follow CPython 3.12's documentation and source.  Objects are blocks of memory; what the interpreter itself would keep inside
of them (the text of strings) is kept beside them.  A function that is not here makes the run undecided."""
import z3

from .clir import Machine, Module, BV, UNDEF, CFault, Unmodelled, SHIFT, compile_ir, signed
from .core import EngineError

IMMORTAL = 0xFFFFFFFF
M64 = (1 << 64) - 1
TYPE_SIZE = 416
# offsets of PyTypeObject
TP = dict(name=24, basicsize=32, itemsize=40, dealloc=48, repr=88, call=128, str=136, getattro=144, flags=168, traverse=184, clear=192,
          methods=232, members=240, getset=248, base=256, init=296, alloc=304, new=312, free=320, mro=336)
FLAGS = {"PyLong_Type": 1 << 24, "PyList_Type": 1 << 25, "PyTuple_Type": 1 << 26, "PyBytes_Type": 1 << 27, "PyUnicode_Type": 1 << 28, "PyDict_Type": 1 << 29, "PyType_Type": 1 << 31}
READY = 1 << 12
HAVE_GC = 1 << 14
BASETYPE = 1 << 10
HEAPTYPE = 1 << 9
METH_VARARGS, METH_KEYWORDS, METH_NOARGS, METH_O, METH_FASTCALL = 1, 2, 4, 8, 128


class Raised(Exception):
    """An exception in the modelled Python program."""

    def __init__(self, kind):
        self.kind = kind


class PyObj(object):
    """What is known about an object beside its memory."""
    __slots__ = ("addr", "kind", "text", "data")

    def __init__(self, addr, kind, text=None, data=None):
        self.addr = addr
        self.kind = kind      # str sub list tuple dict other type module exc
        self.text = text
        self.data = data


class CPython(object):
    """A running interpreter."""

    def __init__(self, mod, ex):
        self.m = Machine(mod, ex, NATIVES, lambda m, name: self.external(name))
        self.m.py = self
        self.ex = ex
        self.err = None          # kind of the exception that is set
        self.fail_at = None      # index of the allocation that fails (int, z3 or None)
        self.failing = False
        self.allocs = 0
        self.failed = False
        self.objs = {}
        self.types = {}
        self.live = set()
        self.modules = {}
        self.module_found = True
        self.readied = set()
        self.none = self.singleton("_Py_NoneStruct", "none", "NoneType")
        self.true = self.singleton("_Py_TrueStruct", "true", "PyBool_Type")
        self.false = self.singleton("_Py_FalseStruct", "false", "PyBool_Type")
        self.callback = None     # what user code does: f(what, object address) -> description
        self.interned = {}

    # ------------------------------------------------------------ memory and objects
    def ld(self, p, n=8):
        return self.m.load(p, n)

    def st(self, p, v, n=8):
        self.m.store(p, n, v)

    def type(self, name, flags=0, **slots):
        t = self.types.get(name)
        if t is None:
            t = self.m.alloc(TYPE_SIZE, "type " + name, zero=True)
            self.types[name] = t
            self.st(t, IMMORTAL)
            if name != "PyType_Type":
                self.st(t + 8, self.type("PyType_Type"))
            else:
                self.st(t + 8, t)
            f = FLAGS.get(name, 0) | READY | flags
            if name in ("PyTuple_Type", "PyList_Type", "PyDict_Type"):
                f |= HAVE_GC
            self.st(t + TP["flags"], f)
            self.objs[t] = PyObj(t, "type", name)
            for k, v in slots.items():
                self.st(t + TP[k], self.native(v))
        return t

    def native(self, name):
        return self.m.func_addr(name)

    def singleton(self, sym, kind, type):
        a = self.m.alloc(40, sym)
        self.m.blocks[a >> SHIFT].opaque = True
        self.st(a, IMMORTAL)
        self.st(a + 8, self.type(type))
        self.objs[a] = PyObj(a, kind)
        self.m.gaddr[sym] = a
        return a

    def external(self, name):
        """The address of a variable of the interpreter."""
        if name.startswith("PyExc_"):
            p = self.m.alloc(8, name)
            e = self.type(name[6:])
            self.objs[e].kind = "exc"
            self.st(p, e)
            return p
        if name.endswith("_Type"):
            return self.type(name)
        raise Unmodelled("variable %s of the interpreter" % name)

    def new(self, size, type, what, kind, text=None, data=None, may_fail=True):
        if may_fail and self.fails():
            self.err = "MemoryError"
            return 0
        a = self.m.alloc(size, what)
        self.m.blocks[a >> SHIFT].opaque = True
        self.st(a, 1)
        self.st(a + 8, type)
        self.objs[a] = PyObj(a, kind, text, data)
        self.live.add(a)
        return a

    def fails(self):
        """Does this allocation fail?"""
        if not self.failing or self.fail_at is None or self.failed:
            return False
        k = self.allocs
        self.allocs += 1
        f = self.fail_at == k
        if f if isinstance(f, bool) else self.ex.branch(f):
            self.failed = True
            return True
        return False

    def no_fail(self, f, *a):
        saved, self.failing = self.failing, False
        try:
            return f(*a)
        finally:
            self.failing = saved

    def alive(self, o, what="an object"):
        if o == 0:
            self.m.fault("%s is null" % what)
        if o is UNDEF:
            self.m.fault("%s is undefined" % what)
        b = self.m.blocks.get(o >> SHIFT)
        if b is None or o != b.base and o not in self.m.gaddr.values():
            self.m.fault("%s is no object" % what)
        if not b.alive:
            self.m.fault("%s was released before: %s" % (what, b.what))

    def incref(self, o):
        self.alive(o, "what is acquired")
        r = self.ld(o)
        if isinstance(r, int) and r & 0xFFFFFFFF == IMMORTAL:
            return o
        self.st(o, self.m.bin("add", r, 1, 64, False))
        return o

    def decref(self, o):
        self.alive(o, "what is released")
        r = self.ld(o)
        if isinstance(r, int) and r >> 31 & 1:
            return
        r = self.m.bin("sub", r, 1, 64, False)
        self.st(o, r)
        z = self.m.icmp("eq", r, 0, 64)
        if self.m.truth(z):
            self.dealloc(o)

    def xdecref(self, o):
        if o != 0:
            self.decref(o)

    def dealloc(self, o):
        self.alive(o, "what is released")
        t = self.ld(o + 8)
        obj = self.objs.get(o)
        d = self.ld(t + TP["dealloc"])
        if obj is not None and obj.kind in ("type", "exc") or o in (self.none, self.true, self.false):
            self.m.fault("%s is released more often than acquired" % self.m.blocks[o >> SHIFT].what)
        if d:
            # exceptions that are set must survive
            saved, self.err = self.err, None
            self.m.call(d, [o])
            if self.err is None:
                self.err = saved
            if self.m.blocks[o >> SHIFT].alive:
                self.m.fault("a deallocator does not release the object")
            return
        self.builtin_dealloc(o)

    def builtin_dealloc(self, o):
        obj = self.objs.get(o)
        kind = obj.kind if obj else None
        inner = []
        if kind == "tuple":
            n = self.ld(o + 16)
            inner = [self.ld(o + 24 + 8 * i) for i in range(n)]
        elif kind == "list":
            n = self.ld(o + 16)
            v = self.ld(o + 24)
            inner = [self.ld(v + 8 * i) for i in range(n)]
            if v:
                self.m.free(v)
        elif kind == "dict":
            inner = [x for kv in obj.data for x in kv[1:]]
        elif kind == "other" and obj.data is not None and obj.data.get("on_delete"):
            # __del__ runs while the object still exists
            f = obj.data.pop("on_delete")
            self.st(o, 1)
            saved, self.err = self.err, None
            f()
            self.err = saved
            self.st(o, 0)
        self.release_memory(o)
        for x in inner:
            if x != 0:
                self.decref(x)

    def release_memory(self, o):
        self.m.free(o)
        self.live.discard(o)
        self.objs.pop(o, None)

    # ------------------------------------------------------------ making objects
    def str(self, text, type=None, may_fail=True):
        o = self.new(40, type or self.type("PyUnicode_Type"), "a string", "str" if type is None else "sub", text, may_fail=may_fail)
        if o:
            self.st(o + 16, len(text))
        return o

    def markup_type(self):
        t = self.types.get("Markup")
        if t is None:
            t = self.type("Markup", FLAGS["PyUnicode_Type"] | HEAPTYPE | BASETYPE)
        return t

    def tuple(self, items, may_fail=True):
        """References to items are acquired."""
        o = self.new(24 + 8 * len(items), self.type("PyTuple_Type"), "a tuple", "tuple", may_fail=may_fail)
        if o:
            self.st(o + 16, len(items))
            for i, x in enumerate(items):
                self.st(o + 24 + 8 * i, self.incref(x) if x else 0)
        return o

    def list(self, n=0):
        o = self.new(40, self.type("PyList_Type"), "a list", "list")
        if not o:
            return 0
        self.st(o + 16, n)
        self.st(o + 24, 0)
        self.st(o + 32, n)
        if n:
            if self.fails():
                self.err = "MemoryError"
                self.st(o + 16, 0)
                self.decref(o)
                return 0
            v = self.m.alloc(8 * n, "the items of a list")
            for i in range(n):
                self.st(v + 8 * i, 0)
            self.st(o + 24, v)
        return o

    def other(self, data, call=False):
        t = self.type("callable" if call else "object", call="py_callable") if call else self.type("other")
        return self.new(16, t, "an object", "other", None, data, may_fail=False)

    def dict(self, n):
        o = self.new(24, self.type("PyDict_Type"), "a dictionary", "dict", None, [], may_fail=False)
        self.objs[o].data = [(i,) for i in range(n)]
        return o

    # ------------------------------------------------------------ questions
    def kind(self, o):
        obj = self.objs.get(o)
        return obj.kind if obj is not None else None

    def flag(self, o, name):
        t = self.ld(o + 8)
        f = self.ld(t + TP["flags"])
        return bool(f & FLAGS[name])

    def is_str(self, o):
        self.alive(o)
        return self.kind(o) in ("str", "sub")

    def need(self, o, kind, what):
        """An API function that checks the type of its argument: PyErr_BadInternalCall otherwise."""
        if o == 0 or self.kind(o) != kind:
            if o != 0:
                self.alive(o)
            self.err = "SystemError"
            return False
        self.alive(o)
        return True

    def must(self, o, kind, what):
        """One that does not."""
        self.alive(o, "the argument of " + what)
        if self.kind(o) != kind:
            self.m.fault("%s of what is no %s" % (what, kind))

    def items(self, o):
        if self.kind(o) == "tuple":
            return [self.ld(o + 24 + 8 * i) for i in range(self.ld(o + 16))]
        n = self.ld(o + 16)
        v = self.ld(o + 24)
        return [self.ld(v + 8 * i) for i in range(n)]

    # ------------------------------------------------------------ lists
    def set_items(self, o, items):
        """The new contents of list o; references were taken care of."""
        old = self.ld(o + 24)
        v = self.m.alloc(8 * len(items), "the items of a list") if items else 0
        for i, x in enumerate(items):
            self.st(v + 8 * i, x)
        if old:
            self.m.free(old)
        self.st(o + 24, v)
        self.st(o + 16, len(items))
        self.st(o + 32, len(items))

    def append(self, o, x):
        if self.fails():
            self.err = "MemoryError"
            return False
        self.incref(x)
        self.set_items(o, self.items(o) + [x])
        return True

    def extend(self, o, it):
        if self.kind(it) not in ("list", "tuple"):
            self.alive(it, "what extends a list")
            raise Unmodelled("a list extended by something else")
        new = self.items(it)
        if not new:
            return True
        if self.fails():
            self.err = "MemoryError"
            return False
        for x in new:
            self.incref(x)
        self.set_items(o, self.items(o) + new)
        return True

    # ------------------------------------------------------------ user code
    def run_callback(self, what, o):
        """User code; -> the address of its result, or 0 with an exception"""
        d = self.no_fail(self.callback, what, o)
        if d[0] == "raise":
            self.err = d[1]
            return 0
        if d[0] == "str":
            return self.no_fail(self.str, d[1])
        if d[0] == "sub":
            return self.no_fail(self.str, d[1], self.markup_type())
        if d[0] == "object":
            return self.incref(d[1])
        raise EngineError("callback %r" % (d,))

    def to_str(self, o):
        """str(o)"""
        if o == 0:
            return self.str("<NULL>")
        self.alive(o, "the argument of str()")
        k = self.kind(o)
        if k == "str":
            return self.incref(o)
        if k == "sub":
            # str.__str__ of a subclass: an exact copy
            return self.str(self.objs[o].text)
        if k in ("none", "true", "false"):
            return self.str({"none": "None", "true": "True", "false": "False"}[k])
        t = self.ld(o + 8)
        f = self.ld(t + TP["str"])
        if f:
            r = self.m.call(f, [o])
            if r == 0:
                self.need_err()
                return 0
        elif k == "other":
            r = self.run_callback("str", o)
            if r == 0:
                return 0
        elif k == "tuple" and not self.items(o):
            r = self.str("()")
            if r == 0:
                return 0
        else:
            raise Unmodelled("str() of %s" % self.m.blocks[o >> SHIFT].what)
        if not self.is_str(r):
            self.decref(r)
            self.err = "TypeError"
            return 0
        return r

    def need_err(self):
        if self.err is None:
            self.m.fault("null is returned without an exception")

    def is_true(self, o):
        self.alive(o, "the argument of bool()")
        k = self.kind(o)
        if k in ("none", "false"):
            return 0
        if k == "true":
            return 1
        if k in ("str", "sub"):
            return int(len(self.objs[o].text) > 0)
        if k in ("tuple", "list"):
            return int(self.ld(o + 16) > 0)
        if k == "dict":
            return int(len(self.objs[o].data) > 0)
        if k == "other" and self.objs[o].data is not None and "truth" in self.objs[o].data:
            return int(bool(self.objs[o].data["truth"]()))
        return 1

    def call_object(self, f, args, kwargs=0):
        """f(*args): args is the address of a tuple"""
        self.alive(f, "what is called")
        t = self.ld(f + 8)
        c = self.ld(t + TP["call"])
        if c == 0:
            self.err = "TypeError"
            return 0
        r = self.m.call(c, [f, args, kwargs])
        self.check_result(r)
        return r

    def check_result(self, r):
        if r is UNDEF:
            self.m.fault("an undefined result")
        if r == 0 and self.err is None:
            self.m.fault("null is returned without an exception")
        if r != 0 and self.err is not None:
            self.m.fault("a result is returned with an exception set (%s)" % self.err)
        if r != 0:
            self.alive(r, "a result")

    # ------------------------------------------------------------ what Python code does
    def methods(self, t):
        out = {}
        p = self.ld(t + TP["methods"])
        while p:
            name = self.ld(p)
            if name == 0:
                break
            out[self.m.cstr(name)] = (self.ld(p + 8), self.ld(p + 16, 4))
            p += 32
        return out

    def members(self, t):
        out = {}
        p = self.ld(t + TP["members"])
        while p:
            name = self.ld(p)
            if name == 0:
                break
            out[self.m.cstr(name)] = (self.ld(p + 8, 4), self.ld(p + 16), self.ld(p + 24, 4))
            p += 40
        return out

    def call_method_def(self, md, self_, args, kwargs=0):
        """args: addresses, borrowed.  -> address, or 0 with an exception"""
        f, fl = md
        fl &= METH_VARARGS | METH_KEYWORDS | METH_NOARGS | METH_O | METH_FASTCALL
        if kwargs and not fl & METH_KEYWORDS and self.objs[kwargs].data:
            self.err = "TypeError"
            return 0
        if fl == METH_NOARGS:
            if args:
                self.err = "TypeError"
                return 0
            r = self.m.call(f, [self_, 0])
        elif fl == METH_O:
            if len(args) != 1:
                self.err = "TypeError"
                return 0
            r = self.m.call(f, [self_, args[0]])
        elif fl in (METH_VARARGS, METH_VARARGS | METH_KEYWORDS):
            t = self.no_fail(self.tuple, args)
            r = self.m.call(f, [self_, t, kwargs] if fl & METH_KEYWORDS else [self_, t])
            self.check_result(r)
            self.decref(t)
            return r
        elif fl in (METH_FASTCALL, METH_FASTCALL | METH_KEYWORDS):
            v = self.m.alloc(max(8, 8 * len(args)), "an array of arguments")
            for i, x in enumerate(args):
                self.st(v + 8 * i, x)
            if kwargs and self.objs[kwargs].data:
                raise Unmodelled("keywords in a fast call")
            r = self.m.call(f, [self_, v, len(args)] + ([0] if fl & METH_KEYWORDS else []))
            self.m.free(v)
        else:
            raise Unmodelled("method flags %d" % fl)
        self.check_result(r)
        return r

    def call_method(self, o, name, args, kwargs=0):
        t = self.ld(o + 8)
        md = self.methods(t).get(name)
        if md is None:
            self.err = "AttributeError"
            return 0
        return self.call_method_def(md, o, args, kwargs)

    def instantiate(self, t):
        """t()"""
        args = self.no_fail(self.tuple, [])
        new = self.ld(t + TP["new"])
        if new == 0:
            self.err = "TypeError"
            self.decref(args)
            return 0
        r = self.m.call(new, [t, args, 0])
        self.check_result(r)
        if r and self.ld(r + 8) == t:
            init = self.ld(t + TP["init"])
            if init:
                k = self.m.call(init, [r, args, 0])
                if signed(k, 32) < 0:
                    self.need_err()
                    self.decref(r)
                    r = 0
        self.decref(args)
        return r

    def import_module(self, name):
        return self.m.call("PyInit_" + name, [])


# -------------------------------------------------------------------- the functions
NATIVES = {}


def api(*names):
    def deco(f):
        for n in names or (f.__name__,):
            NATIVES[n] = f
        return f
    return deco


def s32(v):
    return signed(v, 32)


def s64(v):
    return signed(v, 64)


@api("py_callable")
def _(m, a):
    py = m.py
    f, args = a[0], a[1]
    kw = a[2]
    obj = py.objs[f]
    n = len(py.items(args))
    if n != 1 or kw and py.objs[kw].data:
        py.err = "TypeError"
        return 0
    x = py.items(args)[0]
    r = py.run_callback("escape", x)
    return r


@api()
def _Py_Dealloc(m, a):
    m.py.dealloc(a[0])


@api()
def Py_IncRef(m, a):
    if a[0]:
        m.py.incref(a[0])


@api()
def Py_DecRef(m, a):
    if a[0]:
        m.py.decref(a[0])


# errors
def exc_name(py, p):
    py.alive(p, "an exception type")
    o = py.objs.get(p)
    if o is None or o.kind not in ("exc", "type"):
        py.m.fault("an exception is set that is no exception type")
    return o.text


@api("PyErr_SetString", "PyErr_SetNone", "PyErr_SetObject")
def _(m, a):
    m.py.err = exc_name(m.py, a[0])
    if len(a) > 1 and a[1]:
        m.load(a[1], 1) if m.py.objs.get(a[1]) is None else None


@api()
def PyErr_Format(m, a):
    m.py.err = exc_name(m.py, a[0])
    m.cstr(a[1])
    return 0


@api()
def PyErr_NoMemory(m, a):
    m.py.err = "MemoryError"
    return 0


@api()
def PyErr_Occurred(m, a):
    return m.py.type(m.py.err) if m.py.err else 0


@api()
def PyErr_Clear(m, a):
    m.py.err = None


@api("PyErr_BadInternalCall", "_PyErr_BadInternalCall")
def _(m, a):
    m.py.err = "SystemError"


@api()
def PyErr_BadArgument(m, a):
    m.py.err = "TypeError"
    return 0


@api()
def PyErr_ExceptionMatches(m, a):
    if m.py.err is None:
        m.fault("PyErr_ExceptionMatches without an exception")
    n = exc_name(m.py, a[0])
    return int(n in (m.py.err, "Exception", "BaseException"))


# tuples
@api()
def PyTuple_New(m, a):
    return m.py.tuple([0] * s64(a[0]))


@api()
def PyTuple_Pack(m, a):
    return m.py.tuple(a[1:1 + s64(a[0])])


@api()
def PyTuple_Size(m, a):
    return m.load(a[0] + 16, 8) if m.py.need(a[0], "tuple", "PyTuple_Size") else M64


@api()
def PyTuple_GetItem(m, a):
    if not m.py.need(a[0], "tuple", "PyTuple_GetItem"):
        return 0
    i = s64(a[1])
    if not 0 <= i < m.load(a[0] + 16, 8):
        m.py.err = "IndexError"
        return 0
    return m.load(a[0] + 24 + 8 * i, 8)


@api()
def PyTuple_SetItem(m, a):
    py = m.py
    r = m.load(a[0], 8) if a[0] else 0
    if py.kind(a[0]) != "tuple" or not m.truth(m.icmp("eq", r, 1, 64)):
        py.xdecref(a[2])
        py.err = "SystemError"
        return 0xFFFFFFFF
    i = s64(a[1])
    if not 0 <= i < m.load(a[0] + 16, 8):
        py.xdecref(a[2])
        py.err = "IndexError"
        return 0xFFFFFFFF
    old = m.load(a[0] + 24 + 8 * i, 8)
    m.store(a[0] + 24 + 8 * i, 8, a[2])
    py.xdecref(old)
    return 0


@api()
def PyTuple_GetSlice(m, a):
    if not m.py.need(a[0], "tuple", ""):
        return 0
    it = m.py.items(a[0])
    lo = max(0, s64(a[1]))
    hi = min(len(it), s64(a[2]))
    return m.py.tuple(it[lo:hi])


@api("PySequence_Size", "PySequence_Length", "PyObject_Size", "PyObject_Length")
def _(m, a):
    py = m.py
    py.alive(a[0])
    k = py.kind(a[0])
    if k in ("tuple", "list"):
        return m.load(a[0] + 16, 8)
    if k in ("str", "sub"):
        return len(py.objs[a[0]].text)
    raise Unmodelled("length of %s" % k)


@api()
def PySequence_GetItem(m, a):
    py = m.py
    py.alive(a[0])
    if py.kind(a[0]) not in ("tuple", "list"):
        raise Unmodelled("item of %s" % py.kind(a[0]))
    it = py.items(a[0])
    i = s64(a[1])
    if not 0 <= i < len(it):
        py.err = "IndexError"
        return 0
    return py.incref(it[i])


def varargs_out(m, a, first, values):
    for p, v in zip(a[first:], values):
        m.store(p, 8, v)


@api()
def PyArg_UnpackTuple(m, a):
    py = m.py
    py.must(a[0], "tuple", "PyArg_UnpackTuple")
    it = py.items(a[0])
    if not s64(a[2]) <= len(it) <= s64(a[3]):
        py.err = "TypeError"
        return 0
    varargs_out(m, a, 4, it)
    return 1


def parse_format(m, fmt, it, outs):
    """O, O!, U, s-less formats; -> 1 or 0"""
    py = m.py
    f = fmt.split(":")[0].split(";")[0]
    lo = None
    units = []
    k = 0
    while k < len(f):
        if f[k] == "|":
            lo = len(units)
        elif f[k] in "OU":
            u = f[k]
            if f[k:k + 2] == "O!":
                u = "O!"
                k += 1
            units.append(u)
        elif f[k] == "p":
            units.append("p")
        else:
            raise Unmodelled("argument format %r" % fmt)
        k += 1
    if lo is None:
        lo = len(units)
    if not lo <= len(it) <= len(units):
        py.err = "TypeError"
        return 0
    outs = list(outs)
    for u, x in zip(units, it):
        if u == "O!":
            t = outs.pop(0)
            if m.load(x + 8, 8) != t:
                py.err = "TypeError"
                return 0
        if u == "U" and not py.is_str(x):
            py.err = "TypeError"
            return 0
        p = outs.pop(0)
        if u == "p":
            m.store(p, 4, py.is_true(x))
        else:
            m.store(p, 8, x)
    return 1


@api()
def PyArg_ParseTuple(m, a):
    m.py.must(a[0], "tuple", "PyArg_ParseTuple")
    return parse_format(m, m.cstr(a[1]), m.py.items(a[0]), a[2:])


@api()
def PyArg_Parse(m, a):
    return parse_format(m, m.cstr(a[1]), [a[0]], a[2:])


@api()
def PyArg_ParseTupleAndKeywords(m, a):
    m.py.must(a[0], "tuple", "PyArg_ParseTupleAndKeywords")
    if a[1] and m.py.objs[a[1]].data:
        raise Unmodelled("keyword arguments")
    return parse_format(m, m.cstr(a[2]), m.py.items(a[0]), a[4:])


@api()
def Py_BuildValue(m, a):
    py = m.py
    f = m.cstr(a[0])
    paren = f.startswith("(") and f.endswith(")")
    units = f.strip("()")
    out = []
    if set(units) - set("OSN"):
        raise Unmodelled("build format %r" % f)
    if not units and not paren:
        return py.none
    if len(units) == 1 and not paren:
        return py.incref(a[1]) if units != "N" else a[1]
    t = py.tuple([0] * len(units))
    for i, u in enumerate(units):
        x = a[1 + i]
        if t:
            m.store(t + 24 + 8 * i, 8, py.incref(x) if u != "N" else x)
        elif u == "N":
            py.xdecref(x)
    return t


# lists
@api()
def PyList_New(m, a):
    return m.py.list(s64(a[0]))


@api()
def PyList_Append(m, a):
    py = m.py
    if not py.need(a[0], "list", "PyList_Append"):
        return 0xFFFFFFFF
    if a[1] == 0:
        py.err = "SystemError"
        return 0xFFFFFFFF
    py.alive(a[1], "what is appended")
    return 0 if py.append(a[0], a[1]) else 0xFFFFFFFF


@api()
def PyList_Size(m, a):
    return m.load(a[0] + 16, 8) if m.py.need(a[0], "list", "PyList_Size") else M64


@api()
def PyList_GetItem(m, a):
    if not m.py.need(a[0], "list", "PyList_GetItem"):
        return 0
    it = m.py.items(a[0])
    i = s64(a[1])
    if not 0 <= i < len(it):
        m.py.err = "IndexError"
        return 0
    return it[i]


@api()
def PyList_SetItem(m, a):
    py = m.py
    if py.kind(a[0]) != "list":
        py.xdecref(a[2])
        py.err = "SystemError"
        return 0xFFFFFFFF
    it = py.items(a[0])
    i = s64(a[1])
    if not 0 <= i < len(it):
        py.xdecref(a[2])
        py.err = "IndexError"
        return 0xFFFFFFFF
    v = m.load(a[0] + 24, 8)
    m.store(v + 8 * i, 8, a[2])
    py.xdecref(it[i])
    return 0


@api()
def PyList_Insert(m, a):
    py = m.py
    if not py.need(a[0], "list", "PyList_Insert"):
        return 0xFFFFFFFF
    if a[2] == 0:
        py.err = "SystemError"
        return 0xFFFFFFFF
    if py.fails():
        py.err = "MemoryError"
        return 0xFFFFFFFF
    it = py.items(a[0])
    i = s64(a[1])
    i = max(0, i + len(it)) if i < 0 else min(i, len(it))
    it.insert(i, py.incref(a[2]))
    py.set_items(a[0], it)
    return 0


@api()
def PyList_SetSlice(m, a):
    py = m.py
    if not py.need(a[0], "list", "PyList_SetSlice"):
        return 0xFFFFFFFF
    it = py.items(a[0])
    lo = min(max(0, s64(a[1])), len(it))
    hi = max(lo, min(max(0, s64(a[2])), len(it)))
    new = []
    if a[3]:
        if py.kind(a[3]) not in ("list", "tuple"):
            py.alive(a[3])
            raise Unmodelled("a slice of something else")
        new = py.items(a[3])
    if new and py.fails():
        py.err = "MemoryError"
        return 0xFFFFFFFF
    for x in new:
        py.incref(x)
    py.set_items(a[0], it[:lo] + new + it[hi:])
    for x in it[lo:hi]:
        py.decref(x)
    return 0


@api("_PyList_Extend")
def _(m, a):
    m.py.must(a[0], "list", "_PyList_Extend")
    return m.py.none if m.py.extend(a[0], a[1]) else 0


@api("PyList_Extend")
def _(m, a):
    if not m.py.need(a[0], "list", "PyList_Extend"):
        return 0xFFFFFFFF
    return 0 if m.py.extend(a[0], a[1]) else 0xFFFFFFFF


@api("PySequence_InPlaceConcat")
def _(m, a):
    py = m.py
    py.must(a[0], "list", "PySequence_InPlaceConcat")
    return py.incref(a[0]) if py.extend(a[0], a[1]) else 0


@api("PyList_AsTuple", "PySequence_Tuple")
def _(m, a):
    py = m.py
    if py.kind(a[0]) == "tuple":
        return py.incref(a[0])
    return py.tuple(py.items(a[0])) if py.need(a[0], "list", "PyList_AsTuple") else 0


@api("PyList_GetSlice")
def _(m, a):
    py = m.py
    if not py.need(a[0], "list", ""):
        return 0
    it = py.items(a[0])
    lo = min(max(0, s64(a[1])), len(it))
    hi = max(lo, min(s64(a[2]), len(it)))
    r = py.list(hi - lo)
    if r:
        v = m.load(r + 24, 8)
        for i, x in enumerate(it[lo:hi]):
            m.store(v + 8 * i, 8, py.incref(x))
    return r


@api()
def PyDict_Size(m, a):
    return len(m.py.objs[a[0]].data) if m.py.need(a[0], "dict", "PyDict_Size") else M64


# strings
@api("PyUnicode_FromString", "PyUnicode_InternFromString")
def _(m, a):
    py = m.py
    s = m.cstr(a[0])
    if len(s) <= 1 and all(ord(c) < 256 for c in s):
        # static in the interpreter
        o = py.interned.get(s)
        if o is None:
            o = py.no_fail(py.str, s)
            py.st(o, IMMORTAL)
            py.live.discard(o)
            py.interned[s] = o
        return o
    return py.str(s)


@api("PyUnicode_FromStringAndSize")
def _(m, a):
    n = s64(a[1])
    return m.py.str("".join(chr(m.load(a[0] + i, 1)) for i in range(n)))


@api()
def PyUnicode_New(m, a):
    if s64(a[0]) != 0:
        raise Unmodelled("PyUnicode_New")
    e = m.py.interned.get("")
    return e if e is not None else m.py.str("")


@api("PyUnicode_GetLength")
def _(m, a):
    if not m.py.is_str(a[0]):
        m.py.err = "TypeError"
        return M64
    return len(m.py.objs[a[0]].text)


def concat(py, x, y):
    if not py.is_str(x) or not py.is_str(y):
        py.err = "TypeError"
        return 0
    a, b = py.objs[x], py.objs[y]
    if len(b.text) == 0 and a.kind == "str":
        return py.incref(x)
    if len(a.text) == 0 and b.kind == "str":
        return py.incref(y)
    return py.str(a.text + b.text)


@api()
def PyUnicode_Concat(m, a):
    return concat(m.py, a[0], a[1])


@api()
def PyUnicode_Append(m, a):
    py = m.py
    x = m.load(a[0], 8)
    if x == 0:
        return
    r = 0
    if a[1] != 0:
        r = concat(py, x, a[1])
    else:
        py.err = py.err or "SystemError"
    m.store(a[0], 8, r)
    py.decref(x)


@api()
def PyUnicode_AppendAndDel(m, a):
    PyUnicode_Append(m, a)
    m.py.xdecref(a[1])


@api()
def PyUnicode_FromObject(m, a):
    py = m.py
    if not py.is_str(a[0]):
        py.err = "TypeError"
        return 0
    return py.incref(a[0]) if py.kind(a[0]) == "str" else py.str(py.objs[a[0]].text)


@api()
def PyUnicode_Join(m, a):
    py = m.py
    if a[1] == 0:
        py.err = "SystemError"
        return 0
    py.alive(a[1], "what is joined")
    if py.kind(a[1]) not in ("list", "tuple"):
        raise Unmodelled("join of something else")
    it = py.items(a[1])
    if a[0] and not py.is_str(a[0]):
        py.err = "TypeError"
        return 0
    sep = py.objs[a[0]].text if a[0] else " "
    for x in it:
        if not py.is_str(x):
            py.err = "TypeError"
            return 0
    if len(it) == 0:
        return NATIVES["PyUnicode_FromString"](m, [empty_cstr(m)])
    if len(it) == 1 and py.kind(it[0]) == "str":
        return py.incref(it[0])
    text = ""
    for i, x in enumerate(it):
        if i:
            text = text + sep
        text = text + py.objs[x].text
    return py.str(text)


def empty_cstr(m):
    a = getattr(m, "_empty", None)
    if a is None:
        a = m._empty = m.alloc(1, "an empty string", zero=True)
    return a


# objects
@api("PyObject_Str")
def _(m, a):
    return m.py.to_str(a[0])


@api("PyObject_IsTrue")
def _(m, a):
    return m.py.is_true(a[0])


@api("PyObject_Not")
def _(m, a):
    return 1 - m.py.is_true(a[0])


@api("PyCallable_Check")
def _(m, a):
    py = m.py
    if a[0] == 0:
        return 0
    py.alive(a[0])
    return int(py.ld(py.ld(a[0] + 8) + TP["call"]) != 0)


@api("PyObject_Call")
def _(m, a):
    py = m.py
    py.must(a[1], "tuple", "PyObject_Call")
    return py.call_object(a[0], a[1], a[2])


@api("PyObject_CallObject", "PyEval_CallObject")
def _(m, a):
    py = m.py
    if a[1]:
        if py.kind(a[1]) != "tuple":
            py.err = "TypeError"
            return 0
        return py.call_object(a[0], a[1])
    t = py.tuple([])
    if not t:
        return 0
    r = py.call_object(a[0], t)
    py.decref(t)
    return r


def call_with(py, f, args):
    # the array of a vector call is borrowed: callables of Python take it as it is
    t = py.no_fail(py.tuple, args)
    r = py.call_object(f, t)
    py.decref(t)
    return r


@api("PyObject_CallOneArg")
def _(m, a):
    return call_with(m.py, a[0], [a[1]])


@api("PyObject_CallNoArgs")
def _(m, a):
    return call_with(m.py, a[0], [])


@api("PyObject_CallFunctionObjArgs")
def _(m, a):
    args = []
    for x in a[1:]:
        if x == 0:
            break
        args.append(x)
    return call_with(m.py, a[0], args)


@api("PyObject_Vectorcall", "_PyObject_Vectorcall", "PyObject_VectorcallDict")
def _(m, a):
    n = a[2] & ((1 << 63) - 1)
    if a[3]:
        raise Unmodelled("keywords in a vector call")
    return call_with(m.py, a[0], [m.load(a[1] + 8 * i, 8) for i in range(n)])


@api("PyObject_CallFunction")
def _(m, a):
    f = m.cstr(a[1]) if a[1] else ""
    units = f.strip("()")
    if set(units) - set("O"):
        raise Unmodelled("call format %r" % f)
    args = a[2:2 + len(units)]
    if len(args) == 1 and not f.startswith("(") and m.py.kind(args[0]) == "tuple":
        return m.py.call_object(a[0], args[0])
    return call_with(m.py, a[0], args)


@api("PyType_IsSubtype")
def _(m, a):
    py = m.py
    if a[0] == a[1]:
        return 1
    return int(py.types.get("Markup") == a[0] and py.types.get("PyUnicode_Type") == a[1])


# modules
@api("PyModule_Create2")
def _(m, a):
    py = m.py
    d = a[0]
    size = s64(m.load(d + 56, 8))
    o = py.new(64, py.type("PyModule_Type"), "the module", "module")
    if not o:
        return 0
    if size > 0:
        if py.fails():
            py.err = "MemoryError"
            py.decref(o)
            return 0
        st = m.alloc(size, "the module's state", zero=True)
    else:
        st = 0
    py.objs[o].data = dict(state=st, definition=d, attrs={})
    py.modules[d] = o
    return o


@api("PyModule_GetState")
def _(m, a):
    py = m.py
    if py.kind(a[0]) != "module":
        py.alive(a[0]) if a[0] else m.fault("the state of no module")
        py.err = "SystemError"
        return 0
    py.alive(a[0])
    return py.objs[a[0]].data["state"]


@api("PyModule_GetDef")
def _(m, a):
    m.py.alive(a[0])
    return m.py.objs[a[0]].data["definition"]


def add_object(m, a, steal):
    py = m.py
    if not py.need(a[0], "module", "PyModule_AddObject"):
        return 0xFFFFFFFF
    if a[2] == 0:
        py.err = py.err or "SystemError"
        return 0xFFFFFFFF
    py.alive(a[2])
    if py.fails():
        py.err = "MemoryError"
        return 0xFFFFFFFF
    if not steal:
        py.incref(a[2])
    py.objs[a[0]].data["attrs"][m.cstr(a[1])] = a[2]
    return 0


@api("PyModule_AddObject")
def _(m, a):
    return add_object(m, a, True)


@api("PyModule_AddObjectRef")
def _(m, a):
    return add_object(m, a, False)


@api("PyModule_Add")
def _(m, a):
    r = add_object(m, a, True) if a[2] else 0xFFFFFFFF
    if r and a[2]:
        m.py.decref(a[2])
    return r


@api("PyModule_AddType")
def _(m, a):
    r = NATIVES["PyType_Ready"](m, [a[1]])
    if s32(r) < 0:
        return r
    name = m.alloc(64, "a name", zero=True)
    for i, c in enumerate(m.cstr(m.load(a[1] + TP["name"], 8)).split(".")[-1]):
        m.store(name + i, 1, ord(c))
    return add_object(m, [a[0], name, a[1]], False)


@api("PyState_FindModule")
def _(m, a):
    py = m.py
    if not py.module_found:
        return 0
    return py.modules.get(a[0], 0)


@api("PyState_AddModule")
def _(m, a):
    m.py.modules[a[1]] = a[0]
    return 0


@api("PyType_GetModuleState")
def _(m, a):
    raise Unmodelled("PyType_GetModuleState")


@api("PyType_Ready")
def _(m, a):
    py = m.py
    t = a[0]
    if t in py.readied:
        return 0
    if py.fails():
        py.err = "MemoryError"
        return 0xFFFFFFFF
    py.readied.add(t)
    py.objs[t] = PyObj(t, "type", m.cstr(m.load(t + TP["name"], 8)))
    fl = m.load(t + TP["flags"], 8)
    m.store(t + TP["flags"], 8, fl | READY)
    if m.load(t + 8, 8) == 0:
        m.store(t + 8, 8, py.type("PyType_Type"))
    if m.load(t + TP["alloc"], 8) == 0:
        m.store(t + TP["alloc"], 8, py.native("PyType_GenericAlloc"))
    if m.load(t + TP["free"], 8) == 0:
        m.store(t + TP["free"], 8, py.native("PyObject_GC_Del" if fl & HAVE_GC else "PyObject_Free"))
    return 0


@api("PyType_GenericAlloc")
def _(m, a):
    py = m.py
    if py.fails():
        py.err = "MemoryError"
        return 0
    t = a[0]
    n = s64(m.load(t + TP["basicsize"], 8))
    o = m.alloc(n, "an object of type %s" % m.cstr(m.load(t + TP["name"], 8)), zero=True)
    m.store(o, 8, 1)
    m.store(o + 8, 8, t)
    py.objs[o] = PyObj(o, "instance")
    py.live.add(o)
    return o


@api("PyType_GenericNew")
def _(m, a):
    return m.call(m.load(a[0] + TP["alloc"], 8), [a[0], 0])


@api("_PyObject_New")
def _(m, a):
    py = m.py
    if py.fails():
        py.err = "MemoryError"
        return 0
    t = a[0]
    n = s64(m.load(t + TP["basicsize"], 8))
    o = m.alloc(n, "an object of type %s" % m.cstr(m.load(t + TP["name"], 8)))
    m.store(o, 8, 1)
    m.store(o + 8, 8, t)
    py.objs[o] = PyObj(o, "instance")
    py.live.add(o)
    return o


NATIVES["_PyObject_GC_New"] = NATIVES["_PyObject_New"]


@api("PyObject_Free", "PyObject_GC_Del")
def _(m, a):
    if a[0] == 0:
        return
    m.py.release_memory(a[0])


@api("PyObject_GC_Track", "PyObject_GC_UnTrack")
def _(m, a):
    m.py.alive(a[0])


@api("PyMem_Malloc", "PyObject_Malloc", "malloc")
def _(m, a):
    if m.py.fails():
        return 0
    p = m.alloc(max(1, a[0]), "memory")
    m.py.live.add(p)
    return p


@api("PyMem_Free", "free")
def _(m, a):
    if a[0]:
        m.free(a[0])
        m.py.live.discard(a[0])


# compiler's own
@api("llvm.dbg.declare", "llvm.dbg.value", "llvm.assume", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.va_end", "llvm.va_end.p0")
def _(m, a):
    return None


@api("llvm.expect.i64", "llvm.expect.i32", "llvm.expect.i1")
def _(m, a):
    return a[0]


@api("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove")
def _(m, a):
    n = a[2]
    k = 0
    vals = []
    while k < n:
        b, off = m.block(a[1] + k, 1, "a read")
        c = b.cells.get(off)
        if c is not None and k + c[0] <= n:
            vals.append((k, c[0], c[1]))
            k += c[0]
        else:
            vals.append((k, 1, m.load(a[1] + k, 1)))
            k += 1
    for k, w, v in vals:
        m.store(a[0] + k, w, v)
    return a[0]


@api("llvm.memset.p0.i64", "memset")
def _(m, a):
    for i in range(a[2]):
        m.store(a[0] + i, 1, a[1] & 255)
    return a[0]


@api("strlen")
def _(m, a):
    return len(m.cstr(a[0]))


@api("__assert_fail", "abort", "Py_FatalError", "_Py_FatalErrorFunc")
def _(m, a):
    m.fault("abort")
