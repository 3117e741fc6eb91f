"""Symbolic regular expressions: a backtracking matcher with Python's semantics
over the parse tree of the standard re parser.  Concrete subjects use the real re."""
import re as _re
from re import _parser, _constants as K

from . import core
from .charset import CS, named, ALL, MAXCP, EMPTY, ASCII
from .sstr import (isinstance_sym, is_sym, chars, mk, ch_in, ch_eq, realize, SStr, engine,
                   deep_realize, join as sjoin)
from .core import EngineError

NL = CS.rng(10, 10)
_UNIV = None


def _casevariants(c):
    """All code points matching chr(c) under IGNORECASE (unicode)."""
    global _UNIV
    if _UNIV is None:
        _UNIV = {}
        low = {}
        for p in range(MAXCP + 1):
            if 0xD800 <= p <= 0xDFFF:
                continue
            l = chr(p).lower()
            if len(l) == 1 and ord(l) != p:
                low.setdefault(ord(l), []).append(p)
        for l, ps in low.items():
            grp = [l] + ps
            for g in grp:
                _UNIV[g] = grp
        # extra cases known to sre
        for grp in ((0x69, 0x131), (0x73, 0x17f), (0xb5, 0x3bc), (0x3b5, 0x3f5), (0x3b8, 0x3d1)):
            full = sorted(set(sum([_UNIV.get(g, [g]) for g in grp], [])))
            for g in full:
                _UNIV[g] = full
    cand = _UNIV.get(c, [c])
    pat = _re.compile(_re.escape(chr(c)), _re.I)
    return [x for x in cand if pat.fullmatch(chr(x))] or [c]


def _icset(cs):
    pts = set()
    n = len(cs)
    if n > 5000:
        return cs
    for p in cs:
        pts.update(_casevariants(p))
    return CS.of(pts)


_CAT = {
    K.CATEGORY_DIGIT: ("re_d", False), K.CATEGORY_NOT_DIGIT: ("re_d", True),
    K.CATEGORY_SPACE: ("re_s", False), K.CATEGORY_NOT_SPACE: ("re_s", True),
    K.CATEGORY_WORD: ("re_w", False), K.CATEGORY_NOT_WORD: ("re_w", True),
}


def _cat(cat, flags):
    name, neg = _CAT[cat]
    s = named(name)
    if flags & _re.ASCII:
        s = s.inter(ASCII)
        if name == "re_s":
            s = CS.of(map(ord, " \t\n\r\f\v"))
    return s.comp() if neg else s


def _inset(items, flags):
    neg = False
    res = EMPTY
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            s = CS.rng(av, av)
            if flags & _re.IGNORECASE:
                s = _lit_ic(av, flags)
            res = res.union(s)
        elif op is K.RANGE:
            s = CS.rng(av[0], av[1])
            if flags & _re.IGNORECASE:
                s = s.union(_icset(s))
                if flags & _re.ASCII:
                    s = s.inter(ASCII).union(CS.rng(av[0], av[1]))
            res = res.union(s)
        elif op is K.CATEGORY:
            res = res.union(_cat(av, flags))
        else:
            raise EngineError("regex set op %s" % op)
    return res.comp() if neg else res


def _lit_ic(av, flags):
    pts = _casevariants(av)
    if flags & _re.ASCII:
        if av < 128:
            pts = [p for p in pts if p < 128]
        else:
            pts = [av]
    return CS.of(pts)


def single(op, av, flags):
    """CS if the item matches exactly one character, else None."""
    if op is K.LITERAL:
        return _lit_ic(av, flags) if flags & _re.IGNORECASE else CS.rng(av, av)
    if op is K.NOT_LITERAL:
        return (_lit_ic(av, flags) if flags & _re.IGNORECASE else CS.rng(av, av)).comp()
    if op is K.ANY:
        return ALL if flags & _re.DOTALL else NL.comp()
    if op is K.IN:
        return _inset(av, flags)
    return None


class Node(object):
    __slots__ = ("op", "a", "b", "c", "d")

    def __init__(self, op, a=None, b=None, c=None, d=None):
        self.op = op
        self.a = a
        self.b = b
        self.c = c
        self.d = d


def comp(items, flags):
    out = []
    for op, av in items:
        s = single(op, av, flags)
        if s is not None:
            out.append(Node("set", s))
        elif op is K.BRANCH:
            out.append(Node("branch", [comp(x, flags) for x in av[1]]))
        elif op is K.SUBPATTERN:
            g, add, rem, p = av
            out.append(Node("group", g, comp(p, (flags | add) & ~rem)))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, p = av
            body = comp(p, flags)
            hi = None if hi == K.MAXREPEAT else int(hi)
            kind = {K.MAX_REPEAT: "max", K.MIN_REPEAT: "min", K.POSSESSIVE_REPEAT: "poss"}[op]
            sset = body[0].a if len(body) == 1 and body[0].op == "set" else None
            out.append(Node(kind, int(lo), hi, body, sset))
        elif op is K.AT:
            out.append(Node("at", av, flags))
        elif op is K.ASSERT or op is K.ASSERT_NOT:
            d, p = av
            width = p.getwidth()
            out.append(Node("assert", d, comp(p, flags), op is K.ASSERT_NOT, width))
        elif op is K.GROUPREF:
            out.append(Node("ref", av, bool(flags & _re.IGNORECASE)))
        elif op is K.GROUPREF_EXISTS:
            g, y, n = av
            out.append(Node("refex", g, comp(y, flags), comp(n, flags) if n else []))
        elif op is K.ATOMIC_GROUP:
            out.append(Node("atomic", comp(av, flags)))
        elif op is K.FAILURE:
            out.append(Node("fail"))
        else:
            raise EngineError("regex op %s" % op)
    return out


WORD = None


class Matcher(object):
    def __init__(self, prog, ngroups, cs, start, end):
        self.prog = prog
        self.cs = cs
        self.beg = 0
        self.end = end
        self.groups = [None] * (ngroups + 1)
        self.lastindex = None
        self.lastmark = []

    def run(self, pos, full=False):
        self.groups = [None] * len(self.groups)
        self.lastindex = None
        self.start0 = pos

        def k(p):
            if full and p != self.end:
                return None
            return p
        r = self.seq(self.prog, 0, pos, k)
        return r

    def seq(self, items, i, pos, k):
        # iterate over simple items without recursion
        cs, end = self.cs, self.end
        n = len(items)
        while i < n:
            it = items[i]
            op = it.op
            if op == "set":
                if pos >= end or not ch_in(cs[pos], it.a):
                    return None
                pos += 1
                i += 1
                continue
            if op == "at":
                if not self.at(it.a, it.b, pos):
                    return None
                i += 1
                continue
            if op == "assert":
                if not self.look(it, pos):
                    return None
                i += 1
                continue
            if op == "ref":
                g = self.groups[it.a]
                if g is None:
                    return None
                a, b = g
                ln = b - a
                if pos + ln > end:
                    return None
                for q in range(ln):
                    if not ch_eq(cs[a + q], cs[pos + q]):
                        return None
                pos += ln
                i += 1
                continue
            break
        if i >= n:
            return k(pos)
        nxt = i + 1
        if op == "group":
            g = it.a
            if g is None:
                return self.seq(it.b, 0, pos, lambda p: self.seq(items, nxt, p, k))
            old = self.groups[g]
            oldlast = self.lastindex

            def after(p):
                o2, l2 = self.groups[g], self.lastindex
                self.groups[g] = (pos, p)
                self.lastindex = g
                r = self.seq(items, nxt, p, k)
                if r is None:
                    self.groups[g], self.lastindex = o2, l2
                return r
            r = self.seq(it.b, 0, pos, after)
            if r is None:
                self.groups[g], self.lastindex = old, oldlast
            return r
        if op == "branch":
            for alt in it.a:
                r = self.seq(alt, 0, pos, lambda p: self.seq(items, nxt, p, k))
                if r is not None:
                    return r
            return None
        if op in ("max", "min", "poss"):
            lo, hi, body, sset = it.a, it.b, it.c, it.d
            if sset is not None:
                if op == "max" or op == "poss":
                    m = pos
                    lim = end if hi is None else min(end, pos + hi)
                    while m < lim and ch_in(cs[m], sset):
                        m += 1
                    if m - pos < lo:
                        return None
                    if op == "poss":
                        return self.seq(items, nxt, m, k)
                    while m >= pos + lo:
                        r = self.seq(items, nxt, m, k)
                        if r is not None:
                            return r
                        m -= 1
                    return None
                m = pos
                while m - pos < lo:
                    if m >= end or not ch_in(cs[m], sset):
                        return None
                    m += 1
                while True:
                    r = self.seq(items, nxt, m, k)
                    if r is not None:
                        return r
                    if m >= end or (hi is not None and m - pos >= hi) or not ch_in(cs[m], sset):
                        return None
                    m += 1
            if op == "poss":
                p = pos
                cnt = 0
                while hi is None or cnt < hi:
                    r = self.seq(body, 0, p, lambda q: q)
                    if r is None or (r == p and cnt >= lo):
                        break
                    p = r
                    cnt += 1
                if cnt < lo:
                    return None
                return self.seq(items, nxt, p, k)

            if op == "max":
                def rep(p, cnt, last):
                    if hi is None or cnt < hi:
                        if not (cnt >= lo and p == last):
                            r = self.seq(body, 0, p, lambda q: rep(q, cnt + 1, p))
                            if r is not None:
                                return r
                    if cnt >= lo:
                        return self.seq(items, nxt, p, k)
                    return None
                return rep(pos, 0, -1)

            def rep(p, cnt, last):
                if cnt >= lo:
                    r = self.seq(items, nxt, p, k)
                    if r is not None:
                        return r
                if (hi is None or cnt < hi) and not (cnt >= lo and p == last):
                    return self.seq(body, 0, p, lambda q: rep(q, cnt + 1, p))
                return None
            return rep(pos, 0, -1)
        if op == "atomic":
            r = self.seq(it.a, 0, pos, lambda q: q)
            if r is None:
                return None
            return self.seq(items, nxt, r, k)
        if op == "refex":
            alt = it.b if self.groups[it.a] is not None else it.c
            return self.seq(alt, 0, pos, lambda p: self.seq(items, nxt, p, k))
        if op == "fail":
            return None
        raise EngineError(op)

    def look(self, it, pos):
        d, body, neg, width = it.a, it.b, it.c, it.d
        save = list(self.groups)
        savel = self.lastindex
        if d < 0:
            st = pos - width[0]
            ok = False
            if st >= 0:
                oldend = self.end
                r = self.seq(body, 0, st, lambda q: q if q == pos else None)
                ok = r is not None
        else:
            r = self.seq(body, 0, pos, lambda q: q)
            ok = r is not None
        if neg or not ok:
            self.groups = save
            self.lastindex = savel
        return ok != neg

    def _isword(self, c, flags):
        return ch_in(c, _cat(K.CATEGORY_WORD, flags))

    def at(self, what, flags, pos):
        cs, end = self.cs, self.end
        if what is K.AT_BEGINNING_STRING:
            return pos == 0
        if what is K.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(flags & _re.MULTILINE) and ch_in(cs[pos - 1], NL)
        if what is K.AT_END_STRING:
            return pos == end
        if what is K.AT_END:
            if pos == end:
                return True
            if flags & _re.MULTILINE:
                return ch_in(cs[pos], NL)
            return pos == end - 1 and ch_in(cs[pos], NL)
        if what in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            if end == 0:
                return False
            a = pos > 0 and self._isword(cs[pos - 1], flags)
            b = pos < end and self._isword(cs[pos], flags)
            return (a != b) == (what is K.AT_BOUNDARY)
        raise EngineError("at %s" % what)


class SMatch(object):
    def __init__(self, pat, s, pos, endpos, start, end, groups, lastindex):
        self.re = pat
        self.string = s
        self.pos = pos
        self.endpos = endpos
        self._g = list(groups)
        self._g[0] = (start, end)
        self.lastindex = lastindex

    @property
    def lastgroup(self):
        if self.lastindex is None:
            return None
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _idx(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group")
        g = g.__index__()
        if g < 0 or g >= len(self._g):
            raise IndexError("no such group")
        return g

    def _get(self, g, default=None):
        r = self._g[self._idx(g)]
        if r is None:
            return default
        return mk(chars(self.string)[r[0]:r[1]])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple([self._get(g) for g in gs])

    __getitem__ = _get

    def groups(self, default=None):
        return tuple([self._get(i, default) for i in range(1, len(self._g))])

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        r = self._g[self._idx(g)]
        return -1 if r is None else r[0]

    def end(self, g=0):
        r = self._g[self._idx(g)]
        return -1 if r is None else r[1]

    def span(self, g=0):
        r = self._g[self._idx(g)]
        return (-1, -1) if r is None else r

    @property
    def regs(self):
        return tuple([(-1, -1) if r is None else r for r in self._g])

    def expand(self, template):
        return sjoin("", [p if isinstance(p, str) else (self._get(p, "") or "") for p in _template(self.re, template)])

    def __bool__(self):
        return True

    def __repr__(self):
        return "<SMatch %s>" % (self._g,)


def _template(pat, repl):
    repl = realize(repl)
    t = _parser.parse_template(repl, pat._real)
    # py3.12: list alternating literal, index
    return [x for x in t if x != ""] if isinstance(t, list) else list(t)


def _subj(s):
    if not isinstance(s, str):
        raise TypeError("expected string or bytes-like object, got %r" % type(s).__name__)
    return s


class SPattern(object):
    def __init__(self, real):
        self._real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self._prog = None

    def prog(self):
        if self._prog is None:
            tree = _parser.parse(self.pattern, self.flags & ~_re.DEBUG & ~_re.UNICODE if isinstance(self.pattern, str) else self.flags)
            self._prog = comp(tree, tree.state.flags)
        return self._prog

    def _conc(self, s):
        return not (isinstance_sym(s) and s._sym)

    def _cs(self, s):
        return s if not isinstance_sym(s) else "".join(map(chr, s._c))

    def _run(self, s, pos, endpos, mode):
        cs = chars(_subj(s))
        n = len(cs)
        pos = max(0, min(pos.__index__(), n))
        endpos = max(0, min(n if endpos is None else endpos.__index__(), n))
        if pos > endpos:
            return None
        m = Matcher(self.prog(), self.groups, cs, 0, endpos)
        i = pos
        while True:
            if core.CUR is not None:
                core.CUR.tick()
            e = m.run(i, mode == "fullmatch")
            if e is not None:
                return SMatch(self, s, pos, endpos, i, e, m.groups, m.lastindex)
            if mode != "search":
                return None
            i += 1
            if i > endpos:
                return None

    def _wrap(self, meth, s, pos, endpos):
        if self._conc(s):
            s2 = self._cs(s)
            if endpos is None:
                return getattr(self._real, meth)(s2, pos)
            return getattr(self._real, meth)(s2, pos, endpos)
        return self._run(s, pos, endpos, meth)

    def match(self, string, pos=0, endpos=None):
        return self._wrap("match", string, pos, endpos)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._wrap("fullmatch", string, pos, endpos)

    def search(self, string, pos=0, endpos=None):
        return self._wrap("search", string, pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        if self._conc(string):
            s2 = self._cs(string)
            return self._real.finditer(s2, pos) if endpos is None else self._real.finditer(s2, pos, endpos)
        return self._iter(string, pos, endpos)

    def _iter(self, s, pos, endpos):
        cs = chars(s)
        n = len(cs)
        endpos = n if endpos is None else min(endpos, n)
        pos = max(0, min(pos, n))
        must_advance = False
        i = pos
        m = Matcher(self.prog(), self.groups, cs, 0, endpos)
        while i <= endpos:
            st = i
            found = None
            while st <= endpos:
                if core.CUR is not None:
                    core.CUR.tick()
                if must_advance and st == i:
                    # an empty match here is not allowed, a non empty one is
                    e = self._nonempty(m, st)
                else:
                    e = m.run(st)
                if e is not None:
                    found = e
                    break
                st += 1
            if found is None:
                return
            yield SMatch(self, s, pos, endpos, st, found, m.groups, m.lastindex)
            must_advance = (found == st)
            i = found

    def _nonempty(self, m, st):
        m.groups = [None] * len(m.groups)
        m.lastindex = None
        return m.seq(m.prog, 0, st, lambda p: p if p != st else None)

    def findall(self, string, pos=0, endpos=None):
        if self._conc(string):
            s2 = self._cs(string)
            return self._real.findall(s2, pos) if endpos is None else self._real.findall(s2, pos, endpos)
        res = []
        for m in self._iter(string, pos, endpos):
            if self.groups == 0:
                res.append(m.group())
            elif self.groups == 1:
                res.append(m._get(1, ""))
            else:
                res.append(m.groups(""))
        return res

    def subn(self, repl, string, count=0):
        if self._conc(string) and not callable(repl) and not is_sym(repl):
            return self._real.subn(repl, self._cs(string), count)
        if not callable(repl):
            tmpl = repl if not is_sym(repl) else realize(repl)
            if "\\" in tmpl:
                f = lambda m: m.expand(tmpl)
            else:
                f = lambda m: tmpl
        else:
            f = repl
        if self._conc(string):
            it = self._real.finditer(self._cs(string))
        else:
            it = self._iter(string, 0, None)
        out = []
        cs = chars(string)
        last = 0
        n = 0
        for m in it:
            if count and n >= count:
                break
            out.extend(cs[last:m.start()])
            r = f(m)
            if not isinstance(r, str):
                raise TypeError("expected str instance, %s found" % type(r).__name__)
            out.extend(chars(r))
            last = m.end()
            n += 1
        out.extend(cs[last:])
        return mk(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if self._conc(string):
            return self._real.split(self._cs(string), maxsplit)
        res = []
        cs = chars(string)
        last = 0
        n = 0
        for m in self._iter(string, 0, None):
            if maxsplit and n >= maxsplit:
                break
            res.append(mk(cs[last:m.start()]))
            res.extend(m.groups())
            last = m.end()
            n += 1
        res.append(mk(cs[last:]))
        return res

    def __repr__(self):
        return repr(self._real)

    def __eq__(self, o):
        return isinstance(o, SPattern) and self._real == o._real

    def __hash__(self):
        return hash(self._real)


class ReModule(object):
    """Stands in for the module `re` in instrumented code."""
    def __init__(self):
        for k in dir(_re):
            if not k.startswith("__"):
                setattr(self, k, getattr(_re, k))
        self.__name__ = "re"
        self._cache = {}
        self.Pattern = SPattern
        self.Match = (SMatch, _re.Match)
        self.compile = self._sx_compile
        for m in ("match", "fullmatch", "search", "finditer", "findall", "split", "sub", "subn"):
            setattr(self, m, self._mkfn(m))
        self.escape = self._escape

    def _sx_compile(self, pattern, flags=0):
        if isinstance(pattern, SPattern):
            return pattern
        pattern = realize(pattern)
        if not isinstance(pattern, str):
            if isinstance(pattern, _re.Pattern):
                return SPattern(pattern)
            return _re.compile(pattern, flags)
        key = (pattern, int(flags))
        r = self._cache.get(key)
        if r is None:
            r = self._cache[key] = SPattern(_re.compile(pattern, flags))
        return r

    def _mkfn(self, m):
        if m in ("sub", "subn"):
            def f(pattern, repl, string, count=0, flags=0):
                return getattr(self._sx_compile(pattern, flags), m)(repl, string, count)
        elif m == "split":
            def f(pattern, string, maxsplit=0, flags=0):
                return self._sx_compile(pattern, flags).split(string, maxsplit)
        else:
            def f(pattern, string, flags=0):
                return getattr(self._sx_compile(pattern, flags), m)(string)
        f.__name__ = m
        return f

    def _escape(self, p):
        if is_sym(p):
            out = []
            special = CS.of(map(ord, _re.escape("".join(map(chr, range(128)))).replace("\\", "") and
                                [c for c in map(chr, range(128)) if _re.escape(c) != c]))
            for c in chars(p):
                if ch_in(c, special):
                    out.append(92)
                out.append(c)
            return mk(out)
        return _re.escape(p)
