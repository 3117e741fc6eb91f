"""A symbolic interpreter for C, by way of clang's intermediate representation.

compile_ir() has clang translate a C file into LLVM IR (with the headers it is really built with); parse() reads it; Machine executes it.
Memory is a set of blocks of bytes; every access is checked: null, freed, out of bounds, undefined.  Integers are Python ints or BV
(a z3 term together with an interval that decides most comparisons without the solver); branches on BV fork paths in core.Explorer.
What is not defined in the file is a native function, supplied by cpy.py."""
import os
import re
import subprocess
import tempfile

import z3

from .core import EngineError


class CFault(Exception):
    """The C code does something undefined, with the line where."""


class Unmodelled(EngineError):
    pass


# ------------------------------------------------------------------ values
class _Undef(object):
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class BV(object):
    """A symbolic integer: z3 term, width and an (unsigned) interval that contains it."""
    __slots__ = ("e", "w", "lo", "hi")

    def __init__(self, e, w, lo=0, hi=None):
        self.e = e
        self.w = w
        self.lo = lo
        self.hi = (1 << w) - 1 if hi is None else hi

    def __repr__(self):
        return "BV(%s)" % self.e


def term(v, w):
    return v.e if isinstance(v, BV) else z3.BitVecVal(v, w)


def iv(v):
    return (v.lo, v.hi) if isinstance(v, BV) else (v, v)


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ compilation and parsing
def compile_ir(src, include, flags=()):
    d = tempfile.mkdtemp(prefix="symx-ir-")
    out = os.path.join(d, "out.ll")
    try:
        p = subprocess.run(["clang", "-S", "-emit-llvm", "-O0", "-g1", "-DNDEBUG", "-fno-discard-value-names", "-w", "-I" + include, src, "-o", out] + list(flags),
                           capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise EngineError("clang: " + p.stderr[-1500:])
        with open(out) as f:
            return f.read()
    finally:
        if os.path.exists(out):
            os.unlink(out)
        os.rmdir(d)


TOKEN = re.compile(r'c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[%@]"[^"]*"|[%@][-\w.$]+|!\w*|#\d+|"[^"]*"|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[()\[\]{}<>,=*:|]|0x[0-9A-Fa-f]+')
ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "nocapture", "readonly", "readnone", "returned", "noalias", "immarg", "writeonly",
         "dso_local", "local_unnamed_addr", "inbounds", "nsw", "nuw", "exact", "volatile", "tail", "musttail", "notail", "fastcc", "ccc", "nounwind", "disjoint", "nneg"}


class Toks(object):
    def __init__(self, text):
        self.t = TOKEN.findall(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def accept(self, *w):
        if self.peek() in w:
            return self.next()
        return None

    def expect(self, w):
        t = self.next()
        if t != w:
            raise Unmodelled("IR: %r where %r was expected in %r" % (t, w, " ".join(self.t)[:300]))

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in ATTRS:
                self.next()
                continue
            if t in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "memory"):
                self.next()
                if self.accept("("):
                    depth = 1
                    while depth:
                        x = self.next()
                        depth += (x == "(") - (x == ")")
                else:
                    self.next()
                continue
            return


class Module(object):
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, initialiser or None, constant)
        self.funcs = {}
        self.declared = set()
        self.lines = {}
        self.parse(text)

    # -- types
    def type(self, tk):
        t = tk.next()
        if t[0] == "i" and t[1:].isdigit():
            r = ("i", int(t[1:]))
        elif t == "ptr":
            r = ("p",)
        elif t == "void":
            r = ("void",)
        elif t in ("float", "double"):
            r = ("f",)
        elif t[0] == "%":
            r = ("named", t)
        elif t == "[":
            n = int(tk.next())
            tk.expect("x")
            e = self.type(tk)
            tk.expect("]")
            r = ("a", n, e)
        elif t == "{" or t == "<" and tk.peek() == "{":
            packed = t == "<"
            if packed:
                tk.next()
            fs = []
            while not tk.accept("}"):
                fs.append(self.type(tk))
                tk.accept(",")
            if packed:
                tk.expect(">")
            r = ("s", tuple(fs), packed)
        elif t in ("metadata", "label", "opaque", "..."):
            r = (t,)
        else:
            raise Unmodelled("IR type %r" % t)
        if tk.peek() == "(" and r[0] in ("i", "p", "void", "named") and self.is_fntype(tk):
            depth = 0
            while True:
                x = tk.next()
                depth += (x == "(") - (x == ")")
                if not depth:
                    break
            r = ("fn", r)
        return r

    def is_fntype(self, tk):
        # a function type is followed by a callee; "(" otherwise never follows a type
        return True

    def resolve(self, t):
        while t[0] == "named":
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            return max(1, min(8, (t[1] + 7) // 8))
        if t[0] in ("p", "f"):
            return 8
        if t[0] == "a":
            return self.align(t[2])
        if t[0] == "s":
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        raise Unmodelled("align of %r" % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            n = (t[1] + 7) // 8
            return 1 if n <= 1 else 2 if n == 2 else 4 if n <= 4 else 8
        if t[0] in ("p", "f"):
            return 8
        if t[0] == "a":
            return t[1] * self.size(t[2])
        if t[0] == "s":
            off = 0
            for f in t[1]:
                if not t[2]:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise Unmodelled("size of %r" % (t,))

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for k, f in enumerate(t[1]):
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if k == i:
                return off, f
            off += self.size(f)
        raise Unmodelled("field")

    # -- values: ("c", int) ("g", name) ("l", name) ("zero",) ("undef",) ("agg", [...]) ("str", bytes) ("off", value, n)
    def value(self, tk, t):
        tk.skip_attrs()
        x = tk.next()
        if x[0] == "%":
            return ("l", x)
        if x[0] == "@":
            return ("g", x[1:].strip('"'))
        if x == "null" or x == "false":
            return ("c", 0)
        if x == "true":
            return ("c", 1)
        if x == "zeroinitializer":
            return ("zero",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x[0] == "-" or x[0].isdigit():
            rt = self.resolve(t)
            if rt[0] != "i":
                raise Unmodelled("floating point constants")
            return ("c", int(x) & ((1 << rt[1]) - 1))
        if x.startswith('c"'):
            b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), x[2:-1])
            return ("str", b.encode("latin-1"))
        if x in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[x]
            if x == "<" and tk.peek() == "{":
                tk.next()
                close = "}"
            vs = []
            while not tk.accept(close):
                ft = self.type(tk)
                vs.append((ft, self.value(tk, ft)))
                tk.accept(",")
            if x == "<":
                tk.expect(">")
            return ("agg", vs)
        if x == "getelementptr":
            tk.skip_attrs()
            tk.expect("(")
            bt = self.type(tk)
            tk.expect(",")
            pt = self.type(tk)
            base = self.value(tk, pt)
            idx = []
            while tk.accept(","):
                it = self.type(tk)
                tk.skip_attrs()
                idx.append(self.value(tk, it))
            tk.expect(")")
            return ("off", base, self.const_gep(bt, idx))
        if x in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            tk.expect("(")
            ft = self.type(tk)
            v = self.value(tk, ft)
            tk.expect("to")
            self.type(tk)
            tk.expect(")")
            return v
        raise Unmodelled("IR value %r" % x)

    def const_gep(self, t, idx):
        n = signed(idx[0][1], 64 if idx[0][1] >> 32 else 32) * self.size(t) if idx else 0
        for v in idx[1:]:
            rt = self.resolve(t)
            if rt[0] == "a":
                n += v[1] * self.size(rt[2])
                t = rt[2]
            else:
                o, t = self.field(rt, v[1])
                n += o
        return n

    # -- the file
    def parse(self, text):
        lines = text.split("\n")
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", text, re.M):
            self.lines[m.group(1)] = int(m.group(2))
        # types first
        for l in lines:
            m = re.match(r"(%[-\w.$\"]+) = type (.*)$", l)
            if m:
                self.types[m.group(1)] = ("s", (), False) if m.group(2) == "opaque" else self.type(Toks(m.group(2)))
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                self.global_(l)
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", l)
                self.declared.add(m.group(1))
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.function(l, lines[i + 1:j])
                i = j
            i += 1

    def global_(self, l):
        tk = Toks(l)
        name = tk.next()[1:].strip('"')
        tk.expect("=")
        ext = False
        while True:
            x = tk.next()
            if x == "external":
                ext = True
            if x in ("global", "constant"):
                break
            if x in ("alias", "ifunc"):
                raise Unmodelled("alias")
        t = self.type(tk)
        self.globals[name] = (t, None if ext else self.value(tk, t), x == "constant")

    def function(self, head, body):
        m = re.search(r"@([-\w.$]+)\((.*)\)[^()]*\{\s*$", head)
        if m is None:
            m = re.search(r"@([-\w.$]+)\((.*)\)", head)
        name = m.group(1)
        params = []
        tk = Toks(m.group(2))
        while tk.peek() is not None:
            if tk.accept("..."):
                break
            t = self.type(tk)
            tk.skip_attrs()
            params.append((tk.next(), t))
            tk.accept(",")
        blocks = {}
        order = []
        cur = None
        for l in body:
            l = l.strip()
            if not l or l.startswith(";"):
                continue
            m = re.match(r'([-\w.$]+|"[^"]*"):(\s|$)', l)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = "%entry"
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(l)
        self.funcs[name] = Func(self, name, params, order, blocks)


class Func(object):
    def __init__(self, mod, name, params, order, raw):
        self.mod = mod
        self.name = name
        self.params = params
        self.entry = order[0] if order else None
        self.raw = raw
        self.code = None

    def compiled(self):
        if self.code is None:
            code = {}
            for b, ls in self.raw.items():
                out = []
                k = 0
                while k < len(ls):
                    l = ls[k]
                    # a switch continues to its closing bracket
                    if l.startswith("switch") and "]" not in l.split("[", 1)[-1]:
                        while not ls[k].startswith("]"):
                            k += 1
                            l += " " + ls[k]
                    out.append(self.instr(l))
                    k += 1
                code[b] = out
            self.code = code
        return self.code

    def instr(self, l):
        m = re.search(r", !dbg !(\d+)", l)
        line = self.mod.lines.get(m.group(1), 0) if m else 0
        l = re.sub(r",? ![\w.]+ !\d+", "", l)
        l = re.sub(r"\s*;.*$", "", l)
        M = self.mod
        tk = Toks(l)
        dst = None
        if tk.peek() and tk.peek()[0] == "%" and tk.peek(1) == "=":
            dst = tk.next()
            tk.next()
        op = tk.next()
        while op in ("tail", "musttail", "notail"):
            op = tk.next()
        if op == "alloca":
            t = M.type(tk)
            n = ("c", 1)
            if tk.accept(",") and tk.peek() != "align":
                nt = M.type(tk)
                n = M.value(tk, nt)
            return ("alloca", line, dst, M.size(t), n)
        if op == "load":
            tk.skip_attrs()
            t = M.type(tk)
            tk.expect(",")
            pt = M.type(tk)
            return ("load", line, dst, M.value(tk, pt), M.resolve(t), M.size(t))
        if op == "store":
            tk.skip_attrs()
            t = M.type(tk)
            v = M.value(tk, t)
            tk.expect(",")
            pt = M.type(tk)
            return ("store", line, None, v, M.value(tk, pt), M.resolve(t), M.size(t))
        if op == "getelementptr":
            tk.skip_attrs()
            t = M.type(tk)
            tk.expect(",")
            pt = M.type(tk)
            base = M.value(tk, pt)
            idx = []
            while tk.accept(","):
                it = M.type(tk)
                idx.append((M.value(tk, it), M.resolve(it)[1]))
            steps = []
            for k, (v, w) in enumerate(idx):
                if k == 0:
                    steps.append((v, w, M.size(t)))
                    continue
                rt = M.resolve(t)
                if rt[0] == "a":
                    steps.append((v, w, M.size(rt[2])))
                    t = rt[2]
                else:
                    o, t = M.field(rt, v[1])
                    steps.append((("c", o), 64, 1))
            return ("gep", line, dst, base, steps)
        if op == "icmp":
            p = tk.next()
            t = M.type(tk)
            a = M.value(tk, t)
            tk.expect(",")
            rt = M.resolve(t)
            return ("icmp", line, dst, p, a, M.value(tk, t), 64 if rt[0] == "p" else rt[1])
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            tk.skip_attrs()
            t = M.type(tk)
            a = M.value(tk, t)
            tk.expect(",")
            return ("bin", line, dst, op, a, M.value(tk, t), M.resolve(t)[1], " nsw " in l)
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            tk.skip_attrs()
            t = M.type(tk)
            v = M.value(tk, t)
            if op == "freeze":
                return ("cast", line, dst, "bitcast", v, 64, 64)
            tk.expect("to")
            u = M.type(tk)
            width = lambda x: x[1] if x[0] == "i" else 64
            return ("cast", line, dst, op, v, width(M.resolve(t)), width(M.resolve(u)))
        if op == "br":
            if tk.accept("label"):
                return ("jmp", line, None, tk.next())
            t = M.type(tk)
            c = M.value(tk, t)
            tk.expect(",")
            tk.expect("label")
            a = tk.next()
            tk.expect(",")
            tk.expect("label")
            return ("br", line, None, c, a, tk.next())
        if op == "switch":
            t = M.type(tk)
            v = M.value(tk, t)
            tk.expect(",")
            tk.expect("label")
            d = tk.next()
            tk.expect("[")
            cs = []
            while not tk.accept("]"):
                ct = M.type(tk)
                cv = M.value(tk, ct)
                tk.expect(",")
                tk.expect("label")
                cs.append((cv[1], tk.next()))
            return ("switch", line, None, v, M.resolve(t)[1], d, cs)
        if op == "phi":
            t = M.type(tk)
            ins = []
            while True:
                tk.expect("[")
                v = M.value(tk, t)
                tk.expect(",")
                ins.append((tk.next(), v))
                tk.expect("]")
                if not tk.accept(","):
                    break
            return ("phi", line, dst, dict(ins))
        if op == "select":
            t = M.type(tk)
            c = M.value(tk, t)
            tk.expect(",")
            t = M.type(tk)
            a = M.value(tk, t)
            tk.expect(",")
            t = M.type(tk)
            return ("select", line, dst, c, a, M.value(tk, t))
        if op == "ret":
            t = M.type(tk)
            return ("ret", line, None, None if t[0] == "void" else M.value(tk, t))
        if op == "unreachable":
            return ("unreachable", line, None)
        if op == "call":
            tk.skip_attrs()
            rt = M.type(tk)
            tk.skip_attrs()
            f = M.value(tk, ("p",))
            tk.expect("(")
            args = []
            while not tk.accept(")"):
                t = M.type(tk)
                if t[0] == "metadata":
                    depth = 0
                    while tk.peek() not in (",", ")") or depth:
                        x = tk.next()
                        depth += (x == "(") - (x == ")")
                    args.append(("c", 0))
                else:
                    args.append(M.value(tk, t))
                tk.accept(",")
            return ("call", line, dst, f, args)
        raise Unmodelled("IR instruction %r" % op)


# ------------------------------------------------------------------ execution
SHIFT = 20


class Block(object):
    __slots__ = ("base", "size", "cells", "alive", "what", "ro", "zero", "opaque")

    def __init__(self, base, size, what):
        self.base = base
        self.size = size
        self.cells = {}      # offset -> (size, value)
        self.alive = True
        self.what = what
        self.ro = False
        self.zero = False
        self.opaque = False      # reading what is not set is not modelled (rather than undefined)


class Machine(object):
    def __init__(self, mod, ex, natives, externals):
        """natives: name -> function(machine, args); externals: name -> address (callable(machine, name))"""
        self.mod = mod
        self.ex = ex
        self.natives = natives
        self.externals = externals
        self.blocks = {}
        self.next = 16
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.line = 0
        self.fn = ""
        self.stack = []
        self.called = set()

    # -- memory
    def alloc(self, size, what, zero=False):
        base = self.next << SHIFT
        self.next += 1
        b = Block(base, size, what)
        b.zero = zero
        self.blocks[base >> SHIFT] = b
        return base

    def where(self):
        return "%s:%d" % (self.fn, self.line)

    def fault(self, msg):
        raise CFault("%s (line %d in %s)" % (msg, self.line, self.fn))

    def block(self, p, n, how):
        if p is UNDEF:
            self.fault("%s through an undefined pointer" % how)
        if isinstance(p, BV):
            raise Unmodelled("symbolic pointer")
        b = self.blocks.get(p >> SHIFT)
        if b is None:
            self.fault("%s through a null or invalid pointer" % how)
        if not b.alive:
            self.fault("%s of memory that was released: %s" % (how, b.what))
        off = p - b.base
        if off < 0 or off + n > b.size:
            self.fault("%s out of bounds: %s" % (how, b.what))
        return b, off

    def split(self, b, off):
        """The cell that covers off as bytes."""
        for o in range(off, max(-1, off - 8), -1):
            c = b.cells.get(o)
            if c is not None and o + c[0] > off:
                if c[0] > 1:
                    n, v = c
                    del b.cells[o]
                    for k in range(n):
                        if v is UNDEF:
                            x = UNDEF
                        elif isinstance(v, BV):
                            e = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v.e))
                            x = BV(e, 8)
                        else:
                            x = (v >> (8 * k)) & 255
                        b.cells[o + k] = (1, x)
                return

    def load(self, p, n):
        b, off = self.block(p, n, "a read")
        c = b.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if c is not None and c[0] > n:
            v = c[1]
            if isinstance(v, BV):
                hi = (1 << (8 * n)) - 1
                if v.hi <= hi:
                    return BV(z3.Extract(8 * n - 1, 0, v.e), 8 * n, v.lo, v.hi)
                return BV(z3.Extract(8 * n - 1, 0, v.e), 8 * n)
            if v is not UNDEF:
                return v & ((1 << (8 * n)) - 1)
        out = []
        for k in range(n):
            self.split(b, off + k)
            c = b.cells.get(off + k)
            if c is None:
                if b.opaque:
                    raise Unmodelled("the inside of %s is not modelled" % b.what)
                if not b.zero:
                    return UNDEF
                out.append(0)
            else:
                out.append(c[1])
        if any(x is UNDEF for x in out):
            return UNDEF
        if any(isinstance(x, BV) for x in out):
            return BV(z3.simplify(z3.Concat(*[term(x, 8) for x in out[::-1]])), 8 * n)
        return sum(x << (8 * k) for k, x in enumerate(out))

    def store(self, p, n, v):
        b, off = self.block(p, n, "a write")
        if b.ro:
            self.fault("a write to a constant: %s" % b.what)
        c = b.cells.get(off)
        if c is not None and c[0] == n:
            b.cells[off] = (n, v)
            return
        if c is not None and c[0] > n and c[1] is not UNDEF and v is not UNDEF:
            # the low part of a larger one
            old = c[1]
            w = 8 * c[0]
            if not isinstance(old, BV) and not isinstance(v, BV):
                b.cells[off] = (c[0], old >> (8 * n) << (8 * n) | v)
                return
            small = isinstance(old, BV) and old.hi < 1 << (8 * n) or not isinstance(old, BV) and old < 1 << (8 * n)
            if small:
                lo, hi = iv(v)
                b.cells[off] = (c[0], BV(z3.ZeroExt(w - 8 * n, term(v, 8 * n)), w, lo, hi))
            else:
                b.cells[off] = (c[0], BV(z3.Concat(z3.Extract(w - 1, 8 * n, term(old, w)), term(v, 8 * n)), w))
            return
        for k in range(n):
            self.split(b, off + k)
            b.cells.pop(off + k, None)
        b.cells[off] = (n, v)

    def free(self, p, how="a release"):
        b = self.blocks.get(p >> SHIFT) if isinstance(p, int) else None
        if b is None or p != b.base:
            self.fault("%s of what was not allocated" % how)
        if not b.alive:
            self.fault("%s of what was released before: %s" % (how, b.what))
        b.alive = False

    def cstr(self, p, limit=4096):
        out = []
        while len(out) < limit:
            c = self.load(p + len(out), 1)
            if c == 0:
                return "".join(map(chr, out))
            if not isinstance(c, int):
                raise Unmodelled("symbolic C string")
            out.append(c)
        raise Unmodelled("long C string")

    # -- globals and functions
    def addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.globals:
            t, init, const = self.mod.globals[name]
            if init is None:
                a = self.externals(self, name)
                self.gaddr[name] = a
                return a
            a = self.alloc(self.mod.size(t), "@" + name)
            self.gaddr[name] = a
            self.blocks[a >> SHIFT].zero = True
            self.init(a, t, init)
            self.blocks[a >> SHIFT].ro = const
            return a
        return self.func_addr(name)

    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            if name not in self.mod.funcs and name not in self.natives:
                if name not in self.mod.declared:
                    raise Unmodelled("unknown symbol %s" % name)
            a = self.alloc(1, "function " + name)
            self.blocks[a >> SHIFT].ro = True
            self.faddr[name] = a
            self.fname[a] = name
        return a

    def init(self, a, t, v):
        k = v[0]
        if k == "zero":
            return
        if k == "str":
            for i, c in enumerate(v[1]):
                self.store(a + i, 1, c)
            return
        rt = self.mod.resolve(t)
        if k == "agg":
            if rt[0] == "a":
                n = self.mod.size(rt[2])
                for i, (ft, x) in enumerate(v[1]):
                    self.init(a + i * n, ft, x)
            else:
                # the constant's own type can differ from the variable's (unions)
                st = ("s", tuple(ft for ft, x in v[1]), rt[2] if rt[0] == "s" else False)
                for i, (ft, x) in enumerate(v[1]):
                    o, _ = self.mod.field(st, i)
                    self.init(a + o, ft, x)
            return
        self.store(a, self.mod.size(t), self.val(v, {}))

    def val(self, v, env):
        k = v[0]
        if k == "l":
            return env[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            return self.addr(v[1])
        if k == "off":
            return self.val(v[1], env) + v[2]
        if k == "undef":
            return UNDEF
        if k == "zero":
            return 0
        raise Unmodelled("value %r" % (v,))

    def need(self, v, what="a branch"):
        if v is UNDEF:
            self.fault("%s depends on an undefined value" % what)
        return v

    def truth(self, v):
        self.need(v)
        if isinstance(v, BV):
            if v.lo > 0:
                return True
            if v.hi == 0:
                return False
            return self.ex.branch(v.e != 0)
        if isinstance(v, z3.BoolRef):
            return self.ex.branch(v)
        return v != 0

    # -- running
    def call(self, f, args):
        """f: a name or an address"""
        if not isinstance(f, str):
            if f is UNDEF or f == 0:
                self.fault("a call through a null or undefined pointer")
            name = self.fname.get(f)
            if name is None:
                self.fault("a call through a pointer to no function")
            f = name
        fn = self.mod.funcs.get(f)
        if fn is None:
            nat = self.natives.get(f)
            if nat is None:
                raise Unmodelled("function %s is not modelled" % f)
            return nat(self, args)
        if len(self.stack) > 60:
            raise Unmodelled("deep recursion")
        self.called.add(f)
        saved = (self.fn, self.line)
        self.stack.append(f)
        self.fn = f
        try:
            return self.run(fn, args)
        finally:
            self.stack.pop()
            self.fn, self.line = saved

    def run(self, fn, args):
        code = fn.compiled()
        env = {}
        if len(args) < len(fn.params):
            self.fault("too few arguments for %s" % fn.name)
        for (n, t), a in zip(fn.params, args):
            env[n] = a
        cur, prev = fn.entry, None
        frames = []
        ex = self.ex
        try:
            while True:
                ex.tick(1)
                # all phis of a block at once
                body = code[cur]
                k = 0
                new = {}
                while body[k][0] == "phi":
                    new[body[k][2]] = self.val(body[k][3][prev], env)
                    k += 1
                env.update(new)
                nxt = None
                for ins in body[k:]:
                    op = ins[0]
                    if ins[1]:
                        self.line = ins[1]
                    if op == "load":
                        v = self.load(self.val(ins[3], env), ins[5])
                        env[ins[2]] = v
                    elif op == "store":
                        self.store(self.val(ins[4], env), ins[6], self.val(ins[3], env))
                    elif op == "call":
                        f = ins[3]
                        r = self.call(f[1] if f[0] == "g" else self.val(f, env), [self.val(a, env) for a in ins[4]])
                        if ins[1]:
                            self.line = ins[1]
                        if ins[2]:
                            env[ins[2]] = r
                    elif op == "gep":
                        p = self.need(self.val(ins[3], env), "an address")
                        for v, w, n in ins[4]:
                            x = self.need(self.val(v, env), "an index")
                            if isinstance(x, BV):
                                x = ex.realize_term(x.e)
                            p += signed(x, w) * n
                        env[ins[2]] = p & ((1 << 64) - 1)
                    elif op == "icmp":
                        env[ins[2]] = self.icmp(ins[3], self.val(ins[4], env), self.val(ins[5], env), ins[6])
                    elif op == "br":
                        nxt = ins[4] if self.truth(self.val(ins[3], env)) else ins[5]
                        break
                    elif op == "jmp":
                        nxt = ins[3]
                        break
                    elif op == "bin":
                        env[ins[2]] = self.bin(ins[3], self.val(ins[4], env), self.val(ins[5], env), ins[6], ins[7])
                    elif op == "cast":
                        env[ins[2]] = self.cast(ins[3], self.val(ins[4], env), ins[5], ins[6])
                    elif op == "alloca":
                        n = self.val(ins[4], env)
                        if not isinstance(n, int):
                            raise Unmodelled("variable length array")
                        a = self.alloc(ins[3] * n, "local variable %s of %s" % (ins[2], fn.name))
                        frames.append(a)
                        env[ins[2]] = a
                    elif op == "ret":
                        return None if ins[3] is None else self.val(ins[3], env)
                    elif op == "select":
                        env[ins[2]] = self.val(ins[4] if self.truth(self.val(ins[3], env)) else ins[5], env)
                    elif op == "switch":
                        v = self.need(self.val(ins[3], env))
                        nxt = ins[5]
                        for c, lab in ins[6]:
                            if self.truth(self.icmp("eq", v, c, ins[4])):
                                nxt = lab
                                break
                        break
                    elif op == "unreachable":
                        self.fault("unreachable code is reached")
                    else:
                        raise Unmodelled(op)
                prev, cur = cur, nxt
        finally:
            for a in frames:
                self.blocks[a >> SHIFT].alive = False

    def icmp(self, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not isinstance(a, BV) and not isinstance(b, BV):
            if p[0] == "s":
                a, b = signed(a, w), signed(b, w)
            return int({"eq": a == b, "ne": a != b}[p] if p in ("eq", "ne") else
                       {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]])
        (al, ah), (bl, bh) = iv(a), iv(b)
        if p in ("eq", "ne"):
            if ah < bl or bh < al:
                return int(p == "ne")
            e = term(a, w) == term(b, w)
            return z3.Not(e) if p == "ne" else e
        half = 1 << (w - 1)
        if p[0] == "u" or ah < half and bh < half or al >= half and bl >= half:
            q = p[1:]
            if q in ("gt", "ge"):
                q = {"gt": "lt", "ge": "le"}[q]
                a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
            if q == "lt":
                if ah < bl:
                    return 1
                if al >= bh:
                    return 0
                return z3.ULT(term(a, w), term(b, w))
            if ah <= bl:
                return 1
            if al > bh:
                return 0
            return z3.ULE(term(a, w), term(b, w))
        # of different signs?
        if ah < half and bl >= half:
            return int(p in ("sgt", "sge"))
        if al >= half and bh < half:
            return int(p in ("slt", "sle"))
        x, y = term(a, w), term(b, w)
        return {"slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[p]

    def bin(self, op, a, b, w, nsw):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a = a if isinstance(a, z3.BoolRef) else z3.BoolVal(bool(a))
            b = b if isinstance(b, z3.BoolRef) else z3.BoolVal(bool(b))
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](a, b)
        m = (1 << w) - 1
        if not isinstance(a, BV) and not isinstance(b, BV):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= w:
                    self.fault("a shift by too much")
                return (a << b) & m if op == "shl" else a >> b if op == "lshr" else (signed(a, w) >> b) & m
            if b == 0:
                self.fault("a division by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = signed(a, w), signed(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q & m if op == "sdiv" else (x - q * y) & m
        x, y = term(a, w), term(b, w)
        (al, ah), (bl, bh) = iv(a), iv(b)
        if op == "add":
            if ah + bh <= m:
                return BV(x + y, w, al + bl, ah + bh)
            if al + bl > m:
                return BV(x + y, w, al + bl - m - 1, ah + bh - m - 1)
            return BV(x + y, w)
        if op == "sub":
            return BV(x - y, w, al - bh, ah - bl) if al >= bh else BV(x - y, w)
        f = {"mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}.get(op)
        if f is None:
            raise Unmodelled("symbolic division")
        return BV(f(), w)

    def cast(self, op, v, w, u):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, z3.BoolRef):
            if u == 1:
                return v
            return int(self.ex.branch(v)) if op != "sext" else ((1 << u) - 1 if self.ex.branch(v) else 0)
        if isinstance(v, BV):
            if op == "trunc":
                return BV(z3.Extract(u - 1, 0, v.e), u, v.lo, v.hi) if v.hi < 1 << u else BV(z3.Extract(u - 1, 0, v.e), u)
            if op == "zext":
                return BV(z3.ZeroExt(u - w, v.e), u, v.lo, v.hi)
            if op == "sext":
                if v.hi < 1 << (w - 1):
                    return BV(z3.SignExt(u - w, v.e), u, v.lo, v.hi)
                return BV(z3.SignExt(u - w, v.e), u)
            return v
        if op == "trunc":
            return v & ((1 << u) - 1)
        if op == "sext":
            return signed(v, w) & ((1 << u) - 1)
        return v
