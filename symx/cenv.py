"""Concrete environment: the same harness on the real code with given inputs."""
import importlib
import random

from symx.charset import UNICODE


class Assume(BaseException):
    pass


class Fail(BaseException):
    def __init__(self, msg, detail=""):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.detail = detail


class ConcEnv(object):
    symbolic = False

    def __init__(self, inputs, rng=None):
        self.given = inputs
        self.rng = rng or random.Random(1)      # inputs that are not given are drawn
        self.names = set()
        self.obs = []
        self.known_ids = []
        self.checks = 0

    def mod(self, name):
        return importlib.import_module(name)

    def _name(self, name):
        if name in self.names:
            n = 2
            while "%s~%d" % (name, n) in self.names:
                n += 1
            name = "%s~%d" % (name, n)
        self.names.add(name)
        return name

    def str(self, name, n, dom=None):
        name = self._name(name)
        v = self.given.get(name)
        if v is None or len(v) != n:
            v = self.given[name] = [self._draw(dom[i] if isinstance(dom, (list, tuple)) else dom) for i in range(n)]
        return "".join(map(chr, v))

    def utf8(self, text):
        return text.encode("utf-8")

    def strs(self, name, lo, hi, dom=None):
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        return self.str(name, n, dom)

    def _draw(self, dom):
        iv = (dom if dom is not None else UNICODE).iv
        low = [x for x in iv if x[0] < 128]
        lo, hi = self.rng.choice(low if low and self.rng.random() < 0.7 else iv)
        return self.rng.randint(lo, min(hi, 127) if lo < 128 and self.rng.random() < 0.8 else hi)

    def choice(self, name, options):
        options = list(options)
        name = self._name(name)
        if self.given.get(name, len(options)) >= len(options):
            self.given[name] = self.rng.randrange(len(options))
        return options[self.given[name]]

    def bool(self, name):
        return self.choice(name, [False, True])

    def int(self, name, lo, hi):
        name = self._name(name)
        if name not in self.given:
            self.given[name] = self.rng.randint(lo, hi)
        return self.given[name]

    def concrete(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise Assume()

    def known(self, kid, cond=True):
        if cond:
            self.known_ids.append(kid)
            return True
        return False

    def reach(self, label):
        pass

    def observe(self, key, val):
        self.obs.append((key, val))

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Fail(msg)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b, msg):
        self.obs.append((msg, a))
        self.checks += 1
        if not self.same(a, b):
            raise Fail(msg, "got %r, expected %r" % (self.ev(a), self.ev(b)))

    def eq_f(self, a, b):
        return self.same(a, b)

    def same(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return str.__eq__(str.__str__(a), str.__str__(b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return self.same(list(a.items()), list(b.items()))
        if type(a) is bool or type(b) is bool or a is None or b is None:
            return a is b
        return a == b

    def ev(self, v):
        if isinstance(v, str):
            return str.__str__(v)
        if isinstance(v, (list, tuple)):
            return [self.ev(x) for x in v]
        if isinstance(v, dict):
            return [[self.ev(k), self.ev(x)] for k, x in v.items()]
        if v is None or isinstance(v, (bool, int)):
            return v
        return str(type(v).__name__)
