"""C06 Control directives have their documented meaning in every combination."""
import itertools
from props.common import load, UNICODE, CS

BOUNDS = ("one element (with contents, empty, void, with attributes) with every subset of the attribute directives; every control element with up to two attribute directives; every pair "
          "and triple (thorough: every 17th quadruple) of nested directives in both spellings; every outcome of every condition, independently at each evaluation, "
          "and every iterable of length 0..2 (thorough 0..3); interpolated values are arbitrary one-character strings")
OUTSIDE = "blocks that refer to loop or with variables around them (blocks are hoisted); deeper nesting"
ASSUMPTIONS = ["the condition of py:strip is pure (it is documented to be evaluated twice)"]

VAL = UNICODE.minus(CS.of(map(ord, "&<>\"'")))
ORDER = ["block", "if", "for", "def", "with", "vars"]
CTL = {"block": "name", "if": "test", "for": "each", "def": "function", "with": "vars", "vars": "names", "replace": "value"}


def spec_of(d, k):
    return {"block": "b%d" % k, "if": "c(%d)" % k, "for": "i%d in r(%d)" % (k, k), "def": "f%d(p%d)" % (k, k),
            "with": "w%d = t(%d)" % (k, k), "vars": "u%d = t(%d)" % (k, k), "content": "t(%d)" % k, "replace": "t(%d)" % k,
            "strip": "s(%d)" % k, "strip0": ""}[d]


def source(node):
    kind = node[0]
    if kind == "t":
        return node[1]
    if kind == "x":
        return "${t(%d)}" % node[1]
    if kind == "v":
        return "$" + node[1]
    if kind == "call":
        return "${%s(t(%d))}" % (node[1], node[2])
    if kind == "el":
        tag, dirs, kids = node[1:]
        head = "<" + tag.rstrip("@")
        if tag.endswith("@"):
            head += ' k="1" a="-${t(95)}"'
    else:
        d, k, dirs, kids = node[1:]
        tag = "py:" + d
        head = '<%s %s="%s"' % (tag, CTL[d], spec_of(d, k))
    for d, k in dirs:
        head += ' py:%s="%s"' % (d.replace("strip0", "strip"), spec_of(d, k))
    tag = tag.rstrip("@")
    if tag == "br":
        return head + "/>"
    return head + ">" + "".join([source(x) for x in kids]) + "</" + tag + ">"


class Unbound(Exception):
    pass


class World(object):
    """The functions of the context: conditions, iterables and values, symbolic, one per call; a log of the calls."""

    def __init__(self, env, maxlen, memo):
        self.env = env
        self.maxlen = maxlen
        self.memo = memo
        self.log = []
        self.count = {}

    def key(self, what, k):
        n = self.count.get((what, k), 0)
        self.count[(what, k)] = n + 1
        self.log.append("%s%d" % (what, k))
        return "%s%d.%d" % (what, k, n)

    def c(self, k):
        key = self.key("c", k)
        if key not in self.memo:
            self.memo[key] = self.env.int(key, -1, 1)
        return self.memo[key] > 0

    def r(self, k):
        key = self.key("r", k)
        if key not in self.memo:
            self.memo[key] = self.env.choice(key, list(range(self.maxlen + 1)))
        return ["%d" % j for j in range(self.memo[key])]

    def t(self, k):
        key = self.key("t", k)
        if key not in self.memo:
            self.memo[key] = self.env.str(key, 1, VAL)
        return self.memo[key]

    def s(self, k):
        key = "s%d" % k
        if key not in self.memo:
            self.memo[key] = self.env.int(key, 0, 1)
        return self.memo[key]

    def ctx(self):
        return dict(c=self.c, r=self.r, t=self.t, s=self.s)


class Frame(object):
    def __init__(self, up=None):
        self.names = {}
        self.up = up

    def get(self, n):
        f = self
        while f is not None:
            if n in f.names:
                return f.names[n]
            f = f.up
        raise Unbound(n)


class Oracle(object):
    """The documented meaning."""

    def __init__(self, world):
        self.w = world

    def run(self, nodes, frame, out):
        for n in nodes:
            kind = n[0]
            if kind == "t":
                out.append(n[1])
            elif kind == "x":
                out.append(self.w.t(n[1]))
            elif kind == "v":
                out.append(frame.get(n[1]))
            elif kind == "call":
                f = frame.get(n[1])
                out.append(f(self.w.t(n[2])))
            elif kind == "el":
                tag, dirs, kids = n[1:]
                self.directives([d for o in ORDER for d in dirs if d[0] == o],
                                lambda fr, o, n=n: self.element(n[1], n[2], n[3], fr, o), frame, out)
            else:
                d, k, dirs, kids = n[1:]
                first = [(d, k)] if d != "replace" else []
                extra = dirs + [(d, k)] if d == "replace" else dirs
                self.directives(first + [x for o in ORDER for x in dirs if x[0] == o],
                                lambda fr, o, extra=extra, kids=kids: self.inner(extra, kids, fr, o), frame, out)

    def directives(self, ds, body, frame, out):
        if not ds:
            body(frame, out)
            return
        d, k = ds[0]
        rest = ds[1:]
        if d == "block":
            self.directives(rest, body, Frame(frame), out)
        elif d == "if":
            if self.w.c(k):
                self.directives(rest, body, frame, out)
        elif d == "for":
            for x in self.w.r(k):
                frame.names["i%d" % k] = x
                self.directives(rest, body, frame, out)
        elif d == "def":
            def call(arg):
                fr = Frame(frame)
                fr.names["p%d" % k] = arg
                o = []
                self.directives(rest, body, fr, o)
                return "".join(o)
            frame.names["f%d" % k] = call
        else:
            fr = Frame(frame)
            fr.names[("w%d" if d == "with" else "u%d") % k] = self.w.t(k)
            self.directives(rest, body, fr, out)

    def inner(self, dirs, kids, frame, out):
        dd = dict(dirs)
        if "replace" in dd:
            out.append(self.w.t(dd["replace"]))
        elif "content" in dd:
            out.append(self.w.t(dd["content"]))
        else:
            self.run(kids, frame, out)

    def element(self, tag, dirs, kids, frame, out):
        dd = dict(dirs)
        if "replace" in dd:
            out.append(self.w.t(dd["replace"]))
            return
        strip = "strip0" in dd or ("strip" in dd and self.w.s(dd["strip"]) > 0)
        if not strip:
            out.append("<" + tag.rstrip("@"))
            if tag.endswith("@"):
                out.append(' k="1" a="-' + self.w.t(95) + '"')
            out.append(" />" if tag.startswith("br") else ">")
        self.inner(dirs, kids, frame, out)
        if not strip and not tag.startswith("br"):
            out.append("</" + tag.rstrip("@") + ">")


def h_specs(env, specs, maxlen):
    spec = env.choice("spec", specs)
    src = "<html>" + "".join([source(n) for n in spec]) + "</html>"
    compare(env, src, spec, maxlen, "<html>", "</html>")


def h_root(env, specs, maxlen):
    """The directive on the root itself."""
    spec = env.choice("spec", specs)
    compare(env, source(spec), [spec], maxlen, "", "")


def compare(env, src, spec, maxlen, pre, post):
    memo = {}
    w1 = World(env, maxlen, memo)
    t = load(env, src)
    error = False
    try:
        got = t.render(w1.ctx())
    except NameError:
        error = True
    w2 = World(env, maxlen, memo)
    out = []
    try:
        Oracle(w2).run(spec, Frame(), out)
    except Unbound:
        env.check(error, "a def that was not executed is not defined: " + src)
        return
    env.check(not error, "all names are defined: " + src)
    env.eq(got, pre + "".join(out) + post, "output of " + src)
    env.eq(w1.log, w2.log, "what is evaluated, and in which order, by " + src)


def refs(dirs, kids_extra=()):
    """Children that show the variables of the directives."""
    out = [("t", "-"), ("x", 90)]
    names = [d for d, k in dirs]
    if "block" in names:
        # a block is hoisted: no variable of an outer directive is visible in it
        dirs = dirs[len(names) - names[::-1].index("block"):]
    for d, k in dirs:
        if d == "for":
            out.append(("v", "i%d" % k))
        elif d == "with":
            out.append(("v", "w%d" % k))
        elif d == "vars":
            out.append(("v", "u%d" % k))
        elif d == "def":
            out.append(("v", "p%d" % k))
    return out


def calls(dirs):
    """Uses of the def after the element, where its name is visible."""
    names = [d for d, k in dirs]
    if "def" in names and "block" not in names[:names.index("def")] and "with" not in names[:names.index("def")] and "vars" not in names[:names.index("def")]:
        k = dict(dirs)["def"]
        return [("t", "="), ("call", "f%d" % k, 91), ("call", "f%d" % k, 92)]
    return []


def single_specs():
    for r in range(0, 6):
        for sub in itertools.combinations(["block", "if", "for", "def", "with"], r):
            for tail in ((), ("content",), ("replace",)):
                for strip in ((), ("strip",)):
                    ds = [(d, i + 1) for i, d in enumerate(sub + tail + strip)]
                    yield ds
    for sub in (("with", "vars"), ("vars",), ("if", "vars"), ("for", "with", "vars"), ("def", "vars"), ("strip0",), ("if", "strip0"),
                ("for", "strip0"), ("def", "strip0"), ("content", "strip0"), ("replace", "strip0"), ("block", "strip0")):
        yield [(d, i + 1) for i, d in enumerate(sub)]


def single(ds, rev):
    order = [d for o in ORDER for d in ds if d[0] == o]
    kids = refs(order)
    if rev:
        ds = list(reversed(ds))
    return [("t", "["), ("el", "b", ds, kids)] + calls(order) + [("t", "]"), ("x", 93)]


def empty(ds, tag):
    """Elements without contents, and with attributes."""
    order = [d for o in ORDER for d in ds if d[0] == o]
    kids = refs(order) if tag == "u@" else []
    return [("t", "["), ("el", tag, ds, kids)] + calls(order) + [("t", "]"), ("x", 93)]


def ctl(d, ds):
    order = [(d, 0)] + [x for o in ORDER for x in ds if x[0] == o]
    kids = refs(order)
    return [("t", "["), ("ctl", d, 0, ds, kids)] + calls(order) + [("t", "]"), ("x", 93)]


def ctl_specs():
    attrs = ["block", "if", "for", "def", "with", "content", "replace", "strip"]
    for d in ("block", "if", "for", "def", "with", "vars", "replace"):
        for r in (0, 1, 2):
            for sub in itertools.combinations(attrs, r):
                if d == "replace" and "replace" in sub:
                    continue
                ds = [(a, i + 1) for i, a in enumerate(sub)]
                yield ctl(d, ds)


FORMS = [("el", d) for d in ("block", "if", "for", "def", "with", "vars", "content", "replace", "strip", "strip0")] + \
        [("ctl", d) for d in ("block", "if", "for", "def", "with", "vars", "replace")]


def nest(forms):
    """Nested directives, outermost first."""
    return build(list(forms), 1, [])


def build(forms, k, scope):
    if not forms:
        return [("t", "."), ("x", 80)] + [("v", n) for n in scope]
    (kind, d), rest = forms[0], forms[1:]
    mine = {"for": ["i%d" % k], "with": ["w%d" % k], "vars": ["u%d" % k], "def": ["p%d" % k]}.get(d, [])
    inner_scope = (scope + mine) if d != "block" else []
    kids = [("t", "("), ("x", 60 + k)] + build(rest, k + 1, inner_scope) + [("t", ")")] + [("v", n) for n in inner_scope]
    tag = "biup"[k % 4] if k < 4 else "s"
    node = ("el", tag, [(d, k)], kids) if kind == "el" else ("ctl", d, k, [], kids)
    out = [node]
    if d == "def":
        out += [("t", "="), ("call", "f%d" % k, 70 + k)]
    return out


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def cases(tier):
    deep = tier == "thorough"
    m = 3 if deep else 2
    for rev in (False, True):
        for i, ch in enumerate(chunks([single(ds, rev) for ds in single_specs()], 6)):
            yield dict(name="single/%s%d" % ("rev" if rev else "", i), fn="h_specs", args=dict(specs=ch, maxlen=m if not rev else 2), cost=50)
    emp = [empty(ds, tag) for ds in single_specs() if len(ds) <= 3 or deep for tag in ("b", "b@", "br", "br@", "u@") if tag[:2] != "br" or "content" not in dict(ds)]
    for i, ch in enumerate(chunks(emp, 16)):
        yield dict(name="empty/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=m), cost=50)
    for i, ch in enumerate(chunks(ctl_specs(), 8)):
        yield dict(name="ctl/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=m), cost=50)
    pairs = list(itertools.product(FORMS, FORMS))
    for i, ch in enumerate(chunks([[("t", "a")] + nest(p) + [("t", "z")] for p in pairs], 10)):
        yield dict(name="pair/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=m), cost=50)
    triples = list(itertools.product(FORMS, FORMS, FORMS))
    for i, ch in enumerate(chunks([[("t", "a")] + nest(p) + [("t", "z")] for p in triples], 25)):
        yield dict(name="triple/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=2), cost=100)
    if deep:
        quads = list(itertools.product(FORMS, FORMS, FORMS, FORMS))[::17]
        for i, ch in enumerate(chunks([[("t", "a")] + nest(p) + [("t", "z")] for p in quads], 25)):
            yield dict(name="quad/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=2), cost=200)
    # two directives side by side, so that one could disturb the other
    sib = []
    for a, b in itertools.product(("block", "if", "for", "def", "with", "strip", "content", "replace"), repeat=2):
        sib.append([("el", "b", [(a, 1)], refs([(a, 1)])), ("t", ","), ("el", "i", [(b, 2)], refs([(b, 2)]))] + calls([(a, 1)]) + calls([(b, 2)]))
    for i, ch in enumerate(chunks(sib, 8)):
        yield dict(name="siblings/%d" % i, fn="h_specs", args=dict(specs=ch, maxlen=m), cost=50)
    roots = []
    for d in ("block", "if", "for", "with", "vars", "content", "strip", "strip0"):
        roots.append(("el", "html", [(d, 1)], refs([(d, 1)])))
    for d in ("block", "if", "for", "with", "vars"):
        roots.append(("ctl", d, 1, [], refs([(d, 1)])))
        roots.append(("ctl", d, 1, [("if", 2)], refs([(d, 1)]) + [("el", "b", [("strip", 3)], [("t", "k")])]))
    yield dict(name="roots", fn="h_root", args=dict(specs=roots, maxlen=m), cost=60)
