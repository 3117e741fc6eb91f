"""Sets of code points as sorted interval lists."""
import re as _re
from bisect import bisect_right

MAXCP = 0x10FFFF
_points = {}


class CS(object):
    __slots__ = ("iv", "_n", "_inter", "_minus")

    def __init__(self, iv):
        self.iv = tuple(iv)
        self._n = None
        self._inter = self._minus = None

    @staticmethod
    def of(points):
        pts = sorted(set(points))
        iv = []
        for p in pts:
            if iv and iv[-1][1] == p - 1:
                iv[-1][1] = p
            else:
                iv.append([p, p])
        return CS(tuple((a, b) for a, b in iv))

    @staticmethod
    def rng(a, b):
        if a == b:
            r = _points.get(a)
            if r is None:
                r = _points[a] = CS(((a, b),))
            return r
        return CS(((a, b),))

    def __contains__(self, c):
        iv = self.iv
        i = bisect_right(iv, (c, MAXCP + 1)) - 1
        return i >= 0 and iv[i][0] <= c <= iv[i][1]

    def __len__(self):
        if self._n is None:
            self._n = sum(b - a + 1 for a, b in self.iv)
        return self._n

    def __or__(self, o):
        return self.union(o)

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return self.iv == o.iv

    def __hash__(self):
        return hash(self.iv)

    def __iter__(self):
        for a, b in self.iv:
            for c in range(a, b + 1):
                yield c

    def inter(self, o):
        # the same sets meet again on every path
        memo = self._inter
        if memo is None:
            memo = self._inter = {}
        r = memo.get(id(o))
        if r is None:
            if len(memo) > 1000:
                memo.clear()
            r = memo[id(o)] = (o, self._do_inter(o))
        return r[1]

    def _do_inter(self, o):
        if self.iv == o.iv:
            return self
        res = []
        i = j = 0
        A, B = self.iv, o.iv
        while i < len(A) and j < len(B):
            lo = max(A[i][0], B[j][0])
            hi = min(A[i][1], B[j][1])
            if lo <= hi:
                res.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return CS(res)

    def comp(self):
        res = []
        p = 0
        for a, b in self.iv:
            if a > p:
                res.append((p, a - 1))
            p = b + 1
        if p <= MAXCP:
            res.append((p, MAXCP))
        return CS(res)

    def union(self, o):
        ivs = sorted(self.iv + o.iv)
        res = []
        for a, b in ivs:
            if res and a <= res[-1][1] + 1:
                if b > res[-1][1]:
                    res[-1] = (res[-1][0], b)
            else:
                res.append((a, b))
        return CS(res)

    def minus(self, o):
        memo = self._minus
        if memo is None:
            memo = self._minus = {}
        r = memo.get(id(o))
        if r is None:
            if len(memo) > 1000:
                memo.clear()
            r = memo[id(o)] = (o, self._do_inter(o.comp()))
        return r[1]

    def first(self):
        return self.iv[0][0]

    def __repr__(self):
        return "CS(%s)" % ",".join("%x-%x" % p if p[0] != p[1] else "%x" % p[0] for p in self.iv[:8])


EMPTY = CS(())
ALL = CS(((0, MAXCP),))
SURR = CS.rng(0xD800, 0xDFFF)
UNICODE = ALL.minus(SURR)


def pred_set(fn):
    iv = []
    start = None
    for c in range(MAXCP + 1):
        if fn(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            iv.append((start, c - 1))
            start = None
    if start is not None:
        iv.append((start, MAXCP))
    return CS(iv)


_cache = {}


def named(name):
    r = _cache.get(name)
    if r is None:
        fns = {
            "space": str.isspace, "alnum": str.isalnum, "alpha": str.isalpha,
            "digit": str.isdigit, "decimal": str.isdecimal, "numeric": str.isnumeric,
            "upper": str.isupper, "lower": str.islower, "title": str.istitle,
            "printable": str.isprintable,
            "ident": str.isidentifier,
            "identpart": lambda c: ("a" + c).isidentifier(),
            "linebreak": lambda c: len(("a" + c + "b").splitlines()) == 2,
            "lowerchanges": lambda c: c.lower() != c,
            "upperchanges": lambda c: c.upper() != c,
            "foldchanges": lambda c: c.casefold() != c,
            "strip": lambda c: not c.strip(),
            "re_s": _re.compile(r"\s").match, "re_d": _re.compile(r"\d").match,
            "re_w": _re.compile(r"\w").match,
        }
        r = _cache[name] = pred_set(fns[name])
    return r


ASCII = CS.rng(0, 127)
