"""SStr: a str whose characters may be symbolic (length is always concrete)."""
import string as _string
import z3

from . import core
from .charset import CS, named, ALL, MAXCP, EMPTY
from .core import SC, Formula, EngineError, bvv

rstr = str
_new = rstr.__new__
POISON = "\ue000SYM\ue001"
_poison_n = [0]


def engine():
    c = core.CUR
    if c is None:
        raise EngineError("symbolic string used outside of a path")
    return c


def chars(s):
    """Tuple of int|SC for any string."""
    if isinstance(s, SStr_t):
        c = s._c
        return c
    return tuple(map(ord, s))


def is_sym(s):
    return isinstance(s, SStr_t) and s._sym


def mk(cs):
    """Base string from characters: a real str when concrete."""
    for c in cs:
        if type(c) is not int:
            return _raw(SStr_t, tuple(cs))
    return "".join(map(chr, cs))


def _raw(cls, cs):
    sym = False
    for c in cs:
        if type(c) is not int:
            sym = True
            break
    if sym:
        o = _new(cls, POISON)
    else:
        o = _new(cls, "".join(map(chr, cs)))
    o._c = cs
    o._sym = sym
    return o


# ---------------------------------------------------------------- char tests
def ch_in(c, cs):
    if type(c) is int:
        return c in cs
    return engine().branch_in(c, cs)


def ch_eq(a, b):
    """bool, forking"""
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a == b
    if ia:
        a, b, ib = b, a, True
    if ib:
        if b not in a.dom:
            return False
        return engine().branch_in(a, CS.rng(b, b))
    if a is b:
        return True
    if not a.dom.inter(b.dom):
        return False
    return engine().branch(a.e == b.e, rel=(a, b))


def ch_eq_f(a, b):
    """formula (True/False/z3)"""
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return a == b
    if ia:
        a, b, ib = b, a, True
    if ib:
        if b not in a.dom:
            return False
        return a.e == bvv(b)
    if a is b:
        return True
    if not a.dom.inter(b.dom):
        return False
    return a.e == b.e


def eq_formula(x, y):
    """Formula for equality of two character tuples."""
    if len(x) != len(y):
        return False
    parts = []
    for a, b in zip(x, y):
        f = ch_eq_f(a, b)
        if f is False:
            return False
        if f is not True:
            parts.append(f)
    if not parts:
        return True
    return parts[0] if len(parts) == 1 else z3.And(parts)


def seq_eq(x, y):
    """bool, forking; one decision for the whole comparison."""
    if len(x) != len(y):
        return False
    todo = []
    for a, b in zip(x, y):
        if a is b:
            continue
        ia, ib = type(a) is int, type(b) is int
        if ia and ib:
            if a != b:
                return False
            continue
        if ia:
            if a not in b.dom:
                return False
        elif ib:
            if b not in a.dom:
                return False
        elif not a.dom.inter(b.dom):
            return False
        todo.append((a, b))
    # decide char by char: cheap for the pre-solver
    for a, b in todo:
        if not ch_eq(a, b):
            return False
    return True


def realize(s):
    """Fork over every feasible value of s; returns a real str (or the object itself)."""
    if isinstance(s, SStr_t):
        if not s._sym:
            return "".join(map(chr, s._c))
        e = engine()
        return "".join([chr(e.realize_char(c)) for c in s._c])
    return s


def deep_realize(o, depth=0):
    t = type(o)
    if isinstance(o, SStr_t):
        if o._sym:
            return realize(o)
        return o
    if t is SNum:
        return o.realize()
    if depth > 6:
        return o
    if t is tuple:
        return tuple([deep_realize(x, depth + 1) for x in o])
    if t is list:
        return [deep_realize(x, depth + 1) for x in o]
    if t is dict:
        return {deep_realize(k, depth + 1): deep_realize(v, depth + 1) for k, v in o.items()}
    if t in (set, frozenset):
        return t([deep_realize(x, depth + 1) for x in o])
    return o


def has_sym(o, depth=0):
    t = type(o)
    if isinstance(o, SStr_t):
        return o._sym
    if t is SNum:
        return True
    if depth > 6:
        return False
    if t in (tuple, list, set, frozenset):
        for x in o:
            if has_sym(x, depth + 1):
                return True
        return False
    if t is dict:
        for k, v in o.items():
            if has_sym(k, depth + 1) or has_sym(v, depth + 1):
                return True
    return False


def _norm(i, n):
    if i is None:
        return None
    i = i.__index__()
    if i < 0:
        i += n
        if i < 0:
            i = 0
    return i


def _bounds(start, end, n):
    start = _norm(start, n)
    end = _norm(end, n)
    if start is None:
        start = 0
    if end is None or end > n:
        end = n
    return start, end


def map_char(c, fn, name):
    """Apply a str->str char function.  Returns a tuple of chars."""
    if type(c) is int:
        return tuple(map(ord, fn(chr(c))))
    e = engine()
    cur = e.narrow[c.name] if c.isvar else c.dom
    changes = cur.inter(named(name))
    if not changes:
        return (c,)
    if not e.branch_in(c, named(name)):
        return (c,)
    cur = (e.narrow[c.name] if c.isvar else c.dom).inter(named(name))
    # group by delta
    if len(cur) == 1:
        return tuple(map(ord, fn(chr(cur.first()))))
    by = {}
    for p in cur:
        r = fn(chr(p))
        k = ord(r) - p if len(r) == 1 else ("m", p)
        by.setdefault(k, []).append(p)
    for k, pts in sorted(by.items(), key=lambda kv: -len(kv[1])):
        s = CS.of(pts)
        if e.branch_in(c, s):
            if isinstance(k, tuple):
                return tuple(map(ord, fn(chr(k[1]))))
            dom = CS.of([p + k for p in pts])
            if len(pts) == 1:
                return (pts[0] + k,)
            return (SC(c.e + z3.BitVecVal(k, core.WIDTH), dom, c.name + "%+d" % k, isvar=False),)
    raise EngineError("map_char")


class SStrMeta(type):
    def __instancecheck__(cls, inst):
        if cls is SStr_t:
            return isinstance(inst, rstr)
        return type.__instancecheck__(cls, inst)

    def __subclasscheck__(cls, sub):
        if cls is SStr_t:
            return issubclass(sub, rstr)
        return type.__subclasscheck__(cls, sub)

    def __call__(cls, *a, **k):
        if cls is SStr_t:
            return to_str(*a, **k)
        return type.__call__(cls, *a, **k)


# NOTE: isinstance(x, SStr_t) is true for every real str because of the
# metaclass, so internal code tests the concrete layout instead.
class SStr(rstr, metaclass=SStrMeta):
    def __new__(cls, value="", encoding=None, errors=None):
        if encoding is not None or errors is not None:
            return _raw(cls, tuple(map(ord, rstr(value, encoding or "utf-8", errors or "strict"))))
        if type(value) is tuple and False:
            pass
        if isinstance(value, rstr):
            return _raw(cls, chars(value))
        return _raw(cls, chars(to_str(value)))

    # -- basic
    def __str__(self):
        return mk(self._c)

    def __repr__(self):
        if not self._sym:
            return rstr.__repr__(self)
        if core.CUR is None or not core.CUR.active:
            return "<SStr %s>" % (self._c,)
        return repr(realize(self))

    def __len__(self):
        return len(self._c)

    def __bool__(self):
        return len(self._c) > 0

    def __hash__(self):
        if not self._sym:
            return rstr.__hash__(self)
        return hash(realize(self))

    def __eq__(self, o):
        if isinstance(o, rstr):
            return seq_eq(self._c, chars(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, rstr):
            return not seq_eq(self._c, chars(o))
        return NotImplemented

    def _cmp(self, o):
        a, b = self._c, chars(o)
        for x, y in zip(a, b):
            if ch_eq(x, y):
                continue
            if type(x) is int and type(y) is int:
                return -1 if x < y else 1
            xe = bvv(x) if type(x) is int else x.e
            ye = bvv(y) if type(y) is int else y.e
            if type(y) is int:
                lt = ch_in(x, CS.rng(0, y - 1)) if y else False
            elif type(x) is int:
                lt = ch_in(y, CS.rng(x + 1, MAXCP)) if x < MAXCP else False
            else:
                lt = engine().branch(z3.ULT(xe, ye), rel=(x, y))
            return -1 if lt else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0 if isinstance(o, rstr) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if isinstance(o, rstr) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if isinstance(o, rstr) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if isinstance(o, rstr) else NotImplemented

    def __contains__(self, o):
        if not isinstance(o, rstr):
            raise TypeError("'in <string>' requires string as left operand, not %s" % type(o).__name__)
        return find(self._c, chars(o), 0, len(self._c)) >= 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self._c[i])
        return mk((self._c[i],))

    def __iter__(self):
        for c in self._c:
            yield mk((c,))

    def __add__(self, o):
        if isinstance(o, rstr):
            return mk(self._c + chars(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, rstr):
            return mk(chars(o) + self._c)
        return NotImplemented

    def __mul__(self, n):
        return mk(self._c * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        return mod_format(self, args)

    def __rmod__(self, o):
        if isinstance(o, rstr):
            return mod_format(o, self)
        return NotImplemented

    def __format__(self, spec):
        if not spec:
            return mk(self._c)
        return format(realize(self), realize(spec))

    # -- search
    def find(self, sub, start=None, end=None):
        s, e = _bounds(start, end, len(self._c))
        return find(self._c, chars(sub), s, e)

    def rfind(self, sub, start=None, end=None):
        s, e = _bounds(start, end, len(self._c))
        return rfind(self._c, chars(sub), s, e)

    def index(self, sub, start=None, end=None):
        r = SStr_t.find(self, sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = SStr_t.rfind(self, sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        s, e = _bounds(start, end, len(self._c))
        p = chars(sub)
        if not p:
            return max(0, e - s + 1)
        n = 0
        while True:
            r = find(self._c, p, s, e)
            if r < 0:
                return n
            n += 1
            s = r + len(p)

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            for p in prefix:
                if SStr_t.startswith(self, p, start, end):
                    return True
            return False
        if not isinstance(prefix, rstr):
            raise TypeError("startswith first arg must be str or a tuple of str, not %s" % type(prefix).__name__)
        s, e = _bounds(start, end, len(self._c))
        p = chars(prefix)
        if s + len(p) > e:
            return False
        return seq_eq(self._c[s:s + len(p)], p)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            for p in suffix:
                if SStr_t.endswith(self, p, start, end):
                    return True
            return False
        if not isinstance(suffix, rstr):
            raise TypeError("endswith first arg must be str or a tuple of str, not %s" % type(suffix).__name__)
        s, e = _bounds(start, end, len(self._c))
        p = chars(suffix)
        if e - len(p) < s:
            return False
        return seq_eq(self._c[e - len(p):e], p)

    # -- transformation
    def replace(self, old, new, count=-1):
        cs, o, n = self._c, chars(old), chars(new)
        out = []
        if not o:
            k = 0
            for c in cs:
                if count < 0 or k < count:
                    out.extend(n)
                    k += 1
                out.append(c)
            if count < 0 or k < count:
                out.extend(n)
            return mk(out)
        pos = 0
        k = 0
        while count < 0 or k < count:
            r = find(cs, o, pos, len(cs))
            if r < 0:
                break
            out.extend(cs[pos:r])
            out.extend(n)
            pos = r + len(o)
            k += 1
        out.extend(cs[pos:])
        return mk(out)

    def _stripset(self, what):
        if what is None:
            return named("space")
        return CS.of([c if type(c) is int else engine().realize_char(c) for c in chars(what)])

    def lstrip(self, what=None):
        s = SStr_t._stripset(self, what)
        cs = self._c
        i = 0
        while i < len(cs) and ch_in(cs[i], s):
            i += 1
        return mk(cs[i:])

    def rstrip(self, what=None):
        s = SStr_t._stripset(self, what)
        cs = self._c
        j = len(cs)
        while j > 0 and ch_in(cs[j - 1], s):
            j -= 1
        return mk(cs[:j])

    def strip(self, what=None):
        r = SStr_t.lstrip(self, what)
        if isinstance_sym(r):
            return SStr_t.rstrip(r, what)
        return r.rstrip(None if what is None else realize(what))

    def split(self, sep=None, maxsplit=-1):
        cs = self._c
        if sep is None:
            ws = named("space")
            res = []
            i, n = 0, len(cs)
            while True:
                while i < n and ch_in(cs[i], ws):
                    i += 1
                if i >= n:
                    return res
                if maxsplit >= 0 and len(res) >= maxsplit:
                    res.append(mk(cs[i:]))
                    return res
                j = i
                while j < n and not ch_in(cs[j], ws):
                    j += 1
                res.append(mk(cs[i:j]))
                i = j
        p = chars(sep)
        if not p:
            raise ValueError("empty separator")
        res = []
        pos = 0
        while maxsplit < 0 or len(res) < maxsplit:
            r = find(cs, p, pos, len(cs))
            if r < 0:
                break
            res.append(mk(cs[pos:r]))
            pos = r + len(p)
        res.append(mk(cs[pos:]))
        return res

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return SStr_t.split(self, sep)
        cs = self._c
        if sep is None:
            ws = named("space")
            res = []
            j = len(cs)
            while True:
                while j > 0 and ch_in(cs[j - 1], ws):
                    j -= 1
                if j <= 0:
                    break
                if len(res) >= maxsplit:
                    res.append(mk(cs[:j]))
                    break
                i = j
                while i > 0 and not ch_in(cs[i - 1], ws):
                    i -= 1
                res.append(mk(cs[i:j]))
                j = i
            return res[::-1]
        p = chars(sep)
        if not p:
            raise ValueError("empty separator")
        res = []
        end = len(cs)
        while len(res) < maxsplit:
            r = rfind(cs, p, 0, end)
            if r < 0:
                break
            res.append(mk(cs[r + len(p):end]))
            end = r
        res.append(mk(cs[:end]))
        return res[::-1]

    def splitlines(self, keepends=False):
        cs = self._c
        lb = named("linebreak")
        res = []
        i = 0
        st = 0
        while i < len(cs):
            if ch_in(cs[i], lb):
                e = i + 1
                if i + 1 < len(cs) and ch_eq(cs[i], 13) and ch_eq(cs[i + 1], 10):
                    e = i + 2
                res.append(mk(cs[st:e] if keepends else cs[st:i]))
                st = i = e
            else:
                i += 1
        if st < len(cs):
            res.append(mk(cs[st:]))
        return res

    def partition(self, sep):
        p = chars(sep)
        if not p:
            raise ValueError("empty separator")
        r = find(self._c, p, 0, len(self._c))
        if r < 0:
            return mk(self._c), "", ""
        return mk(self._c[:r]), mk(p), mk(self._c[r + len(p):])

    def rpartition(self, sep):
        p = chars(sep)
        if not p:
            raise ValueError("empty separator")
        r = rfind(self._c, p, 0, len(self._c))
        if r < 0:
            return "", "", mk(self._c)
        return mk(self._c[:r]), mk(p), mk(self._c[r + len(p):])

    def join(self, it):
        return join(self, it)

    def lower(self):
        out = []
        for i, c in enumerate(self._c):
            if type(c) is int and c > 127:
                return mk(chars(realize(self).lower()))
            out.extend(map_char(c, rstr.lower, "lowerchanges"))
        return mk(out)

    def upper(self):
        out = []
        for c in self._c:
            out.extend(map_char(c, rstr.upper, "upperchanges"))
        return mk(out)

    def casefold(self):
        out = []
        for c in self._c:
            out.extend(map_char(c, rstr.casefold, "foldchanges"))
        return mk(out)

    def removeprefix(self, p):
        if SStr_t.startswith(self, p):
            return mk(self._c[len(p):])
        return mk(self._c)

    def removesuffix(self, p):
        if len(p) and SStr_t.endswith(self, p):
            return mk(self._c[:-len(p)])
        return mk(self._c)

    def _all(self, name):
        if not self._c:
            return False
        s = named(name)
        for c in self._c:
            if not ch_in(c, s):
                return False
        return True

    def isspace(self):
        return SStr_t._all(self, "space")

    def isalnum(self):
        return SStr_t._all(self, "alnum")

    def isalpha(self):
        return SStr_t._all(self, "alpha")

    def isdigit(self):
        return SStr_t._all(self, "digit")

    def isdecimal(self):
        return SStr_t._all(self, "decimal")

    def isnumeric(self):
        return SStr_t._all(self, "numeric")

    def isascii(self):
        from .charset import ASCII
        for c in self._c:
            if not ch_in(c, ASCII):
                return False
        return True

    def isprintable(self):
        for c in self._c:
            if not ch_in(c, named("printable")):
                return False
        return True

    def isidentifier(self):
        if not self._c or not ch_in(self._c[0], named("ident")):
            return False
        for c in self._c[1:]:
            if not ch_in(c, named("identpart")):
                return False
        return True

    def ljust(self, w, fill=" "):
        return mk(self._c + chars(fill) * max(0, w - len(self._c)))

    def rjust(self, w, fill=" "):
        return mk(chars(fill) * max(0, w - len(self._c)) + self._c)

    def format(self, *a, **k):
        return fmt_format(self, a, k)

    def format_map(self, m):
        return fmt_format(self, (), m)

    def translate(self, table):
        out = []
        for c in self._c:
            ci = c
            if type(c) is not int:
                # fork only over the keys of the table
                keys = None
                try:
                    keys = list(table.keys())
                except AttributeError:
                    pass
                if keys is not None and all(type(k) is int for k in keys):
                    if not ch_in(c, CS.of(keys)):
                        out.append(c)
                        continue
                ci = engine().realize_char(c)
            try:
                r = table[ci]
            except LookupError:
                out.append(ci)
                continue
            if r is None:
                continue
            if isinstance(r, int):
                out.append(r)
            else:
                out.extend(chars(r))
        return mk(out)

    def __reduce__(self):
        raise EngineError("pickling a symbolic string")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getnewargs__(self):
        return (realize(self),)


SStr_t = SStr


# isinstance must be the layout test inside this module
def _layout(o):
    return SStr_t in type(o).__mro__


_mro_cache = {}


def isinstance_sym(o):
    """o is an SStr object (concrete or symbolic content)."""
    t = type(o)
    r = _mro_cache.get(t)
    if r is None:
        r = _mro_cache[t] = SStr_t in t.__mro__
    return r


def _default(name):
    real = getattr(rstr, name)

    def method(self, *a, **k):
        return real(realize(self), *[deep_realize(x) for x in a], **k)
    method.__name__ = name
    return method


for _n in dir(rstr):
    if _n not in SStr.__dict__ and (not _n.startswith("_")):
        setattr(SStr, _n, _default(_n))
SStr.maketrans = staticmethod(rstr.maketrans)
SStr.__name__ = SStr.__qualname__ = "str"


# the functions above were written with isinstance(x, SStr_t): rebind them
def chars(s):  # noqa: F811
    if isinstance_sym(s):
        return s._c
    return tuple(map(ord, s))


def is_sym(s):  # noqa: F811
    return isinstance_sym(s) and s._sym


def realize(s):  # noqa: F811
    if isinstance_sym(s):
        if not s._sym:
            return "".join(map(chr, s._c))
        e = engine()
        return "".join([chr(e.realize_char(c)) for c in s._c])
    if type(s) is SNum:
        return s.realize()
    return s


def deep_realize(o, depth=0):  # noqa: F811
    t = type(o)
    if isinstance_sym(o):
        return realize(o) if o._sym else o
    if t is SNum:
        return o.realize()
    if depth > 6:
        return o
    if t is tuple:
        return tuple([deep_realize(x, depth + 1) for x in o])
    if t is list:
        return [deep_realize(x, depth + 1) for x in o]
    if t is dict:
        return {deep_realize(k, depth + 1): deep_realize(v, depth + 1) for k, v in o.items()}
    if t in (set, frozenset):
        return t([deep_realize(x, depth + 1) for x in o])
    return o


def has_sym(o, depth=0):  # noqa: F811
    t = type(o)
    if t is rstr or t is int or o is None or t is bool:
        return False
    if isinstance_sym(o):
        return o._sym
    if t is SNum:
        return True
    if depth > 6:
        return False
    if t in (tuple, list, set, frozenset):
        for x in o:
            if has_sym(x, depth + 1):
                return True
        return False
    if t is dict:
        for k, v in o.items():
            if has_sym(k, depth + 1) or has_sym(v, depth + 1):
                return True
    return False


# ---------------------------------------------------------------- algorithms
def find(cs, p, start, end):
    m = len(p)
    for i in range(start, end - m + 1):
        ok = True
        for k in range(m):
            a, b = cs[i + k], p[k]
            if type(a) is int and type(b) is int:
                if a != b:
                    ok = False
                    break
        if ok and seq_eq(cs[i:i + m], p):
            return i
    return -1


def rfind(cs, p, start, end):
    m = len(p)
    for i in range(end - m, start - 1, -1):
        if seq_eq(cs[i:i + m], p):
            return i
    return -1


def join(sep, it):
    sepc = chars(sep)
    out = []
    first = True
    anysym = False
    for n, x in enumerate(it):
        if not isinstance(x, rstr):
            raise TypeError("sequence item %d: expected str instance, %s found" % (n, type(x).__name__))
        if not first:
            out.extend(sepc)
        first = False
        out.extend(chars(x))
    return mk(out)


class SBytes(bytes):
    """The UTF-8 encoding of a text that may be symbolic; it can be decoded."""
    text = ""

    def decode(self, encoding="utf-8", errors="strict"):
        import codecs
        name = codecs.lookup(to_plain(encoding)).name
        if name in ("utf-8", "ascii", "iso8859-1", "cp1252", "utf-8-sig"):
            skip = 1 if name == "utf-8-sig" and len(self.text) and ch_in(chars(self.text)[0], CS.of([0xfeff])) else 0
            if name.startswith("utf-8") or all(ch_in(c, CS.rng(0, 127)) for c in chars(self.text)):
                return mk(chars(self.text)[skip:])
        return deep_realize(self.text).encode("utf-8").decode(to_plain(encoding), to_plain(errors))


def to_plain(s):
    return deep_realize(s)


def to_str(*a, **k):
    """str(...)"""
    if a and type(a[0]) is SBytes and (len(a) > 1 or k):
        return a[0].decode(*a[1:], **k)
    if len(a) != 1 or k:
        return rstr(*[deep_realize(x) for x in a], **k)
    x = a[0]
    t = type(x)
    if t is rstr:
        return x
    if isinstance_sym(x):
        f = t.__str__
        if f is SStr.__str__:
            return mk(x._c)
        return f(x)
    if t is SNum:
        return x.realize_str()
    if t in (int, float, bool, type(None)):
        return rstr(x)
    if t in (list, tuple, dict, set, frozenset):
        return rstr(deep_realize(x))
    if isinstance(x, BaseException):
        if t.__str__ is BaseException.__str__:
            if len(x.args) == 0:
                return ""
            if len(x.args) == 1:
                return to_str(x.args[0])
        return rstr(x)
    return rstr(x)


def parse_mod(f):
    """Split a concrete format into literals and specs; None if unsupported."""
    out = []
    i = 0
    n = len(f)
    lit = []
    while i < n:
        c = f[i]
        if c != "%":
            lit.append(c)
            i += 1
            continue
        if i + 1 >= n:
            return None
        d = f[i + 1]
        if d == "%":
            lit.append("%")
            i += 2
            continue
        key = None
        j = i + 1
        if d == "(":
            e = f.find(")", j)
            if e < 0:
                return None
            key = f[j + 1:e]
            j = e + 1
        st = j
        while j < n and f[j] in "#0- +.123456789":
            j += 1
        if j >= n:
            return None
        out.append(("lit", "".join(lit)))
        lit = []
        out.append(("spec", key, f[st:j], f[j]))
        i = j + 1
    out.append(("lit", "".join(lit)))
    return out


def mod_format(f, args):
    if is_sym(f):
        # '%' may be anywhere among symbolic characters
        f = realize(f)
    elif isinstance_sym(f):
        f = "".join(map(chr, f._c))
    parts = parse_mod(f)
    if parts is None:
        return f % deep_realize(args)
    specs = [p for p in parts if p[0] == "spec"]
    mapping = any(p[1] is not None for p in specs)
    if mapping:
        vals = [args[p[1]] if p[1] is not None else args for p in specs]
    else:
        vals = args if isinstance(args, tuple) else (args,)
        if len(vals) != len(specs):
            if len(vals) < len(specs):
                raise TypeError("not enough arguments for format string")
            if not (len(specs) == 0 and hasattr(args, "__getitem__") and not isinstance(args, (rstr, tuple))):
                raise TypeError("not all arguments converted during string formatting")
    out = []
    k = 0
    for p in parts:
        if p[0] == "lit":
            out.extend(map(ord, p[1]))
            continue
        v = vals[k]
        k += 1
        if p[3] == "s" and not p[2]:
            out.extend(chars(to_str(v)))
        elif p[3] == "r" and not p[2] and is_sym(v):
            out.extend(chars(repr(realize(v))))
        else:
            out.extend(map(ord, ("%" + p[2] + p[3]) % (deep_realize(v),)))
    return mk(out)


def fmt_format(f, a, k):
    f = realize(f)
    if not has_sym(a) and not has_sym(k):
        return f.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(f):
        out.extend(map(ord, lit))
        if field is None:
            continue
        if field == "":
            field = rstr(auto)
            auto += 1
        obj, _ = _string.Formatter().get_field(field, a, k)
        if conv == "r":
            obj = repr(deep_realize(obj))
        elif conv == "s":
            obj = to_str(obj)
        elif conv == "a":
            obj = ascii(deep_realize(obj))
        if spec:
            spec = spec.format(*deep_realize(a), **deep_realize(k))
        out.extend(chars(do_format(obj, spec)))
    return mk(out)


def do_format(obj, spec=""):
    if not spec:
        if isinstance(obj, rstr) or type(obj) is SNum:
            return to_str(obj)
        t = type(obj)
        if t.__format__ is object.__format__:
            return to_str(obj)
    return format(deep_realize(obj), realize(spec))


def fstring(parts):
    out = []
    for p in parts:
        out.extend(chars(p))
    return mk(out)


# ---------------------------------------------------------------- numbers
class SNum(object):
    """Symbolic integer or real.  Comparisons fork and give real bools."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _e(o):
        if type(o) is SNum:
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, float):
            from fractions import Fraction
            fr = Fraction(o)
            return z3.Q(fr.numerator, fr.denominator)
        return None

    def _co(self, o):
        b = SNum._e(o)
        a = self.e
        if b is None:
            return None, None
        if a.sort() != b.sort():
            if a.sort() == z3.IntSort():
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return a, b

    def _bin(name, op):
        def f(self, o):
            a, b = self._co(o)
            if a is None:
                return NotImplemented
            return SNum(z3.simplify(op(a, b)))

        def r(self, o):
            a, b = self._co(o)
            if a is None:
                return NotImplemented
            return SNum(z3.simplify(op(b, a)))
        return f, r

    __add__, __radd__ = _bin("add", lambda a, b: a + b)
    __sub__, __rsub__ = _bin("sub", lambda a, b: a - b)
    __mul__, __rmul__ = _bin("mul", lambda a, b: a * b)

    def __truediv__(self, o):
        if type(o) is SNum or not o:
            return self.realize() / (o.realize() if type(o) is SNum else o)
        a = z3.ToReal(self.e) if self.e.sort() == z3.IntSort() else self.e
        from fractions import Fraction
        fr = 1 / Fraction(o)
        return SNum(z3.simplify(a * z3.Q(fr.numerator, fr.denominator)))

    def __floordiv__(self, o):
        if type(o) is SNum or not o:
            return self.realize() // (o.realize() if type(o) is SNum else o)
        r = SNum(z3.simplify(z3.ToInt((self / o).e)))
        return r

    def __neg__(self):
        return SNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _cmp(op):
        def f(self, o):
            a, b = self._co(o)
            if a is None:
                return NotImplemented
            return engine().branch(z3.simplify(op(a, b)))
        return f

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        a, b = self._co(o)
        if a is None:
            return False
        return engine().branch(z3.simplify(a == b))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return self.__ne__(0)

    def realize(self):
        if self.e.sort() == z3.IntSort():
            return engine().realize_term(self.e)
        from fractions import Fraction
        return float(engine().realize_term(self.e, lambda v: Fraction(v.numerator_as_long(), v.denominator_as_long())))

    def realize_str(self):
        return rstr(self.realize())

    def __index__(self):
        return self.realize()

    __int__ = __index__

    def __float__(self):
        return float(self.realize())

    def __hash__(self):
        return hash(self.realize())

    def __repr__(self):
        if core.CUR is None or not core.CUR.active:
            return "<SNum %s>" % self.e
        return rstr(self.realize())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __deepcopy__(self, memo):
        return self
