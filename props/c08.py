"""C08 Compile-time optimizations never change the output."""
import itertools
from props.common import esc, load, UNICODE, CS

BOUNDS = ("every sequence of 0..2 (thorough 0..3) pieces out of 26 kinds in every kind of surroundings; runs of 1..10, 120..130, 246..256 and 496..506 "
          "(thorough: every length up to 260 and 490..520, 740..760) alternating pieces in each surroundings, values of one arbitrary character; every constant "
          "condition out of 25, with every body out of 18, in both spellings, against the same value in a variable")
OUTSIDE = "templates that give the name literal another meaning (it is documented to be a compile time construct)"
ASSUMPTIONS = ["the pure Python output buffer is explored; the C buffer is compared with it by C17"]


# one character that is escaped and one that is not: escaping itself is the subject of C01
VAL = UNICODE.minus(CS.of(map(ord, "&<>\"'")))


class Html(object):
    def __html__(self):
        return "<h>"

    def __str__(self):
        return "s<"


class World(object):
    def __init__(self, env, memo):
        self.env = env
        self.memo = memo
        self.log = []

    def t(self, k):
        self.log.append(k)
        if k not in self.memo:
            self.memo[k] = "<" + self.env.str("t%d" % k, 1, VAL)
        return self.memo[k]

    def b(self, k):
        self.log.append(k)
        if ("b", k) not in self.memo:
            self.memo["b", k] = self.env.choice("b%d" % k, [None, False, True, "v", 0])
        return self.memo["b", k]

    def boom(self, k):
        self.log.append(k)
        raise KeyError("boom")

    def ctx(self):
        return dict(t=self.t, b=self.b, boom=self.boom, h=Html(), n=None, lst=[1, 2], tr=True, fa=False, gettext=lambda m: "[" + m + "]",
                    m=self.env.mod("markupsafe").Markup("<m>"))


def battr(name, v):
    if v is None or v is False:
        return ""
    return " " + name + '="' + (name if v is True else esc(str(v))) + '"'


# kind -> (source with %(k)d, its text when evaluated on its own)
PIECES = {
    "text": ("k%(k)d", lambda w, k: "k%d" % k),
    "entity": ("&lt;", lambda w, k: "&lt;"),
    "dollar": ("$$", lambda w, k: "$"),
    "expr": ("${t(%(k)d)}", lambda w, k: esc(w.t(k))),
    "bare": ("$t(%(k)d)", lambda w, k: esc(w.t(k))),
    "lit": ("${literal(t(%(k)d))}", lambda w, k: w.t(k)),
    "litbare": ("$literal(t(%(k)d))", lambda w, k: w.t(k)),
    "lithtml": ("${literal(h)}", lambda w, k: "<h>"),
    "litmarkup": ("${literal(m)}", lambda w, k: "<m>"),
    "litnone": ("${literal(None)}${literal(n)}", lambda w, k: "NoneNone"),
    "litbool": ("${literal(True)}${literal(fa)}", lambda w, k: "TrueFalse"),
    "litint": ("${literal(1)}", lambda w, k: "1"),
    "litconst": ("${literal('&lt;a')}", lambda w, k: "<a"),
    "litplus": ("${literal('&lt;') + t(%(k)d)}", lambda w, k: "<" + esc(w.t(k))),
    "littwice": ("${literal(literal(t(%(k)d)))}", lambda w, k: w.t(k)),
    "litcond": ("${literal(t(%(k)d)) if tr else 0}", lambda w, k: w.t(k)),
    "html": ("${h}${m}", lambda w, k: "<h><m>"),
    "el": ("<i>x</i>", lambda w, k: "<i>x</i>"),
    "boolattr": ("<i b=\"${b(%(k)d)}\"/>", lambda w, k: "<i" + battr("b", w.b(k)) + "></i>"),
    "mixattr": ("<i b=\"-${t(%(k)d)}$$${literal(t(%(k)d + 1000))}\"/>", lambda w, k: "<i b=\"-" + esc(w.t(k)) + "$" + w.t(k + 1000) + "\"></i>"),
    "litattr": ("<i b=\"${literal(t(%(k)d))}\"/>", lambda w, k: "<i b=\"" + w.t(k) + "\"></i>"),
    "iftrue": ('<py:if test="True">y${t(%(k)d)}</py:if>', lambda w, k: "y" + esc(w.t(k))),
    "iffalse": ('<py:if test="False">y${t(%(k)d)}</py:if>', lambda w, k: ""),
    "if": ('<py:if test="b(%(k)d)">y</py:if>', lambda w, k: "y" if w.b(k) else ""),
    "comment": ("<!--c-->", lambda w, k: "<!--c-->"),
    "nocomment": ("<!--!c-->", lambda w, k: ""),
    "content": ('<i py:content="literal(t(%(k)d))"/>', lambda w, k: "<i>" + w.t(k) + "</i>"),
    "replace": ('<py:replace value="t(%(k)d)"/>', lambda w, k: esc(w.t(k))),
    "code": ("<?python t(%(k)d) ?>", lambda w, k: (w.t(k), "")[1]),
    "with": ('<py:with vars="q = t(%(k)d)">$q</py:with>', lambda w, k: esc(w.t(k))),
    "for": ('<py:for each="q in lst">$q</py:for>', lambda w, k: "12"),
    "def": ('<py:def function="f%(k)d(p)">($p)</py:def>${f%(k)d(t(%(k)d))}', lambda w, k: "(" + esc(w.t(k)) + ")"),
    "block": ('<py:block name="bl%(k)d">[${t(%(k)d)}]</py:block>', lambda w, k: "[" + esc(w.t(k)) + "]"),
    "strip": ('<i py:strip="True">u</i>', lambda w, k: "u"),
    "strip2": ('<i py:strip="fa">u</i>', lambda w, k: "<i>u</i>"),
    "empty": ("${''}", lambda w, k: ""),
}
KINDS = list(PIECES)
# pieces allowed in an attribute value
INATTR = ["text", "entity", "dollar", "expr", "bare", "lit", "litbare", "lithtml", "litmarkup", "litnone", "litbool", "litint", "litplus", "littwice", "litcond", "html", "empty"]

AROUND = {
    "root": ("<html>%s</html>", "<html>%s</html>", 1),
    "el": ("<html><b c=\"1\">%s</b>e</html>", '<html><b c="1">%s</b>e</html>', 1),
    "if": ('<html>a<py:if test="tr">%s</py:if>e</html>', "<html>a%se</html>", 1),
    "iftrue": ('<html>a<py:if test="1">%s</py:if>e</html>', "<html>a%se</html>", 1),
    "for": ('<html>a<py:for each="z in lst">%s</py:for>e</html>', "<html>a%s%se</html>", 2),
    "forel": ('<html>a<b py:for="z in lst">%s</b>e</html>', "<html>a<b>%s</b><b>%s</b>e</html>", 2),
    "with": ('<html>a<py:with vars="z = 1">%s</py:with>e</html>', "<html>a%se</html>", 1),
    "def": ('<html>a<py:def function="g(z)">%s</py:def>${g(1)}e</html>', "<html>a%se</html>", 1),
    "block": ('<html>a<py:block name="gb">%s</py:block>e</html>', "<html>a%se</html>", 1),
    "strip": ('<html>a<b py:strip="tr">%s</b>e</html>', "<html>a%se</html>", 1),
}


def around(ctx, text):
    pre, post = AROUND[ctx][0].split("%s")
    return pre + text + post


def compare(env, w1, w2, src, want, msg, **kw):
    t = load(env, src, **kw)
    err1 = err2 = None
    got = None
    try:
        got = t.render(w1.ctx())
    except KeyError:
        err1 = "KeyError"
    try:
        exp = want()
    except KeyError:
        err2 = "KeyError"
    env.check(err1 == err2, "the same error: " + msg)
    if err1 is None:
        env.eq(got, exp, msg)
    env.eq(w1.log, w2.log, "what is evaluated, in order: " + msg)


def expect(w, ctx, kinds):
    parts = AROUND[ctx][1].split("%s")
    out = parts[0]
    for i in range(AROUND[ctx][2]):
        for k, kind in enumerate(kinds):
            if kind == "boom":
                w.boom(k)
            out += PIECES[kind][1](w, k)
        out += parts[i + 1]
    return out


def source(kind, k):
    if kind == "boom":
        return "${boom(%d)}" % k
    return PIECES[kind][0].replace("%(k)d", "%d" % k)


def h_seq(env, ctxs, first, n, kinds=None):
    """Any sequence of pieces is the concatenation of the pieces."""
    ctx = env.choice("ctx", ctxs)
    kinds = [first] * (n > 0) + [env.choice("k%d" % i, kinds or KINDS) for i in range(n - 1)]
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    src = around(ctx, "".join([source(kind, k) for k, kind in enumerate(kinds)]))
    compare(env, w1, w2, src, lambda: expect(w2, ctx, kinds), "pieces %s in %s" % (kinds, ctx))


def h_boom(env, ctxs, first):
    """An exception in a piece: exactly the pieces before it have been evaluated."""
    ctx = env.choice("ctx", ctxs)
    k2 = env.choice("k2", ["expr", "lit", "text", "boolattr"])
    kinds = [first, "boom", k2]
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    src = around(ctx, "".join([source(kind, k) for k, kind in enumerate(kinds)]))
    compare(env, w1, w2, src, lambda: expect(w2, ctx, kinds), "pieces %s in %s" % (kinds, ctx))


def h_attr(env, first, n):
    """Any sequence of pieces in an attribute with text around."""
    kinds = [first] * (n > 0) + [env.choice("k%d" % i, INATTR) for i in range(n - 1)]
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    src = '<html><i c="(' + "".join([source(kind, k) for k, kind in enumerate(kinds)]) + ')"/></html>'

    def want():
        return '<html><i c="(' + "".join([PIECES[kind][1](w2, k) for k, kind in enumerate(kinds)]) + ')"></i></html>'
    compare(env, w1, w2, src, want, "pieces %s in an attribute" % kinds)


CYCLES = [["expr"], ["expr", "text"], ["text", "lit", "expr"], ["lit"], ["el", "expr"], ["mixattr", "expr"], ["text", "boolattr", "expr"], ["expr", "comment", "lit", "entity"]]


class LongWorld(World):
    """Every value is concrete except the ones at three positions."""

    def __init__(self, env, memo, sym):
        World.__init__(self, env, memo)
        self.sym = sym

    def t(self, k):
        if k in self.sym:
            return World.t(self, k)
        self.log.append(k)
        return "<%d>" % k

    def b(self, k):
        self.log.append(k)
        return [None, True, "v"][k % 3]


def h_long(env, ctxs, cycle, ns):
    ctx = env.choice("ctx", ctxs)
    n = env.choice("n", ns)
    kinds = [cycle[i % len(cycle)] for i in range(n)]
    memo = {}
    sym = [0, n // 2, n - 1]
    w1 = LongWorld(env, memo, sym)
    w2 = LongWorld(env, memo, sym)
    src = around(ctx, "".join([source(kind, k) for k, kind in enumerate(kinds)]))
    compare(env, w1, w2, src, lambda: expect(w2, ctx, kinds), "%d pieces in %s" % (n, ctx))


def h_longattr(env, ns):
    n = env.choice("n", ns)
    kind = env.choice("kind", ["expr", "lit", "alt"])
    kinds = [("expr", "text")[i % 2] if kind == "alt" else kind for i in range(n)]
    memo = {}
    w1 = LongWorld(env, memo, [0, n - 1])
    w2 = LongWorld(env, memo, [0, n - 1])
    src = '<html><i c="(' + "".join([source(kd, k) for k, kd in enumerate(kinds)]) + ')"/>z</html>'

    def want():
        return '<html><i c="(' + "".join([PIECES[kd][1](w2, k) for k, kd in enumerate(kinds)]) + ')"></i>z</html>'
    compare(env, w1, w2, src, want, "attribute of %d pieces" % n)


def h_trans(env, first, n):
    """The same with translation switched on."""
    kinds = [first] + [env.choice("k%d" % i, ["expr", "lit", "el", "litattr", "iftrue", "comment"]) for i in range(n - 1)]
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    src = "<html><b>word</b>" + "".join([source(kind, k) for k, kind in enumerate(kinds)]) + "<b title=\"word ${t(99)}\"/></html>"

    def want():
        out = "<html><b>[word]</b>"
        for k, kind in enumerate(kinds):
            p = PIECES[kind][1](w2, k)
            if kind == "el":
                p = "<i>[x]</i>"
            elif kind == "iftrue":
                p = "[y]" + p[1:]
            out += p
        return out + "<b title=\"[word] " + esc(w2.t(99)) + "\"></b></html>"
    compare(env, w1, w2, src, want, "translated pieces %s" % kinds, translatable=True)


CONSTS = [("True", True), ("False", False), ("None", None), ("0", 0), ("1", 1), ("-1", -1), ("0.0", 0.0), ("1.5", 1.5), ("''", ""), ("'a'", "a"), ("'0'", "0"),
          ("[]", []), ("[0]", [0]), ("()", ()), ("(0,)", (0,)), ("{}", {}), ("{1: 2}", {1: 2}), ("{0}", {0}), ("b''", b""), ("b'x'", b"x"), ("not True", False),
          ("not 0", True), ("not not ''", False), ("not None", True), ("...", Ellipsis), ("1j", 1j), ("not []", True), ("not 'a'", False), ("set()", 0), ("' '", " ")]

# bodies; %(d)s is replaced by the source of the piece; text that follows the condition
BODIES = {
    "text": ("x", ""),
    "empty": ("", "z"),
    "expr": ("${t(1)}", "${t(2)}"),
    "lit": ("${literal(t(1))}", ""),
    "el": ('<b c="${t(1)}">x</b>', "y"),
    "def": ('<py:def function="f(a)">($a)</py:def>${f(t(1))}', ""),
    "defafter": ('<py:def function="f(a)">($a)</py:def>', "${f(t(1))}"),
    "defbefore": ('<py:def function="f(a)">($a)</py:def>', ""),
    "block": ('<py:block name="k">[${t(1)}]</py:block>', ""),
    "blockafter": ('<py:block name="k">[${t(1)}]</py:block>', "${k()}"),
    "code": ("<?python u = t(1) ?>$u", ""),
    "codeafter": ("<?python u = t(1) ?>", "$u"),
    "with": ('<py:with vars="u = t(1)">$u</py:with>', "$u"),
    "for": ('<py:for each="u in lst">$u</py:for>', "$u"),
    "if": ('<py:if test="b(1)">x</py:if>', ""),
    "if0": ('<py:if test="0">x</py:if>y', ""),
    "if1": ('<py:if test="1">x</py:if>y', ""),
    "boom": ("${boom(1)}", ""),
    "undef": ("${undefined_name}", ""),
    "comment": ("<!--c--><!--!d-->", ""),
}


def outcome(env, t, ctx):
    try:
        return "out", t.render(ctx)
    except (NameError, KeyError, TypeError) as e:
        return "error", type(e).__name__ if not isinstance(e, NameError) else "NameError"


def h_const(env, consts, bodies):
    """A condition written as a constant is the same as the value in a variable."""
    src, val = env.choice("const", CONSTS[consts[0]:consts[1]])
    body, after = BODIES[env.choice("body", bodies)]
    form = env.choice("form", ["<html>a<py:if test=\"%s\">%s</py:if>%s</html>", "<html>a<b py:if=\"%s\">%s</b>%s</html>",
                               "<html>a<py:for each=\"z in lst\"><py:if test=\"%s\">%s</py:if></py:for>%s</html>",
                               "<html>${g()}<py:def function=\"g()\"><b py:if=\"%s\">%s</b>%s</py:def></html>"])
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    c1 = w1.ctx()
    c2 = w2.ctx()
    c1["u"] = c2["u"] = "U"
    c2["cond"] = val
    if src == "set()":
        c1["set"] = lambda: 0
    r1 = outcome(env, load(env, form % (src, body, after)), c1)
    r2 = outcome(env, load(env, form % ("cond", body, after)), c2)
    env.check(r1[0] == r2[0], "condition %s: %s or error" % (src, body))
    env.eq(r1[1], r2[1], "condition %s against a variable, body %s" % (src, body))
    env.eq(w1.log, w2.log, "what is evaluated, condition %s, body %s" % (src, body))


def h_conststrip(env, consts):
    src, val = env.choice("const", CONSTS[consts[0]:consts[1]])
    memo = {}
    w1 = World(env, memo)
    w2 = World(env, memo)
    form = env.choice("form", ["<html><b py:strip=\"%s\" c=\"$n\">${t(1)}</b></html>", "<html><b py:strip=\"%s\" d=\"-${t(2)}\">${t(1)}</b>e</html>",
                               "<html><b py:strip=\"%s\" py:content=\"t(1)\"/>e</html>"])
    c2 = w2.ctx()
    c2["cond"] = val
    if src == "set()":
        src = "not 1"
    env.eq(load(env, form % src).render(w1.ctx()), load(env, form % "cond").render(c2), "py:strip %s against a variable" % src)
    env.eq(w1.log, w2.log, "what is evaluated")


def cases(tier):
    deep = tier == "thorough"
    ctxs = list(AROUND)
    for kind in KINDS:
        yield dict(name="seq1/%s" % kind, fn="h_seq", args=dict(ctxs=ctxs, first=kind, n=1), cost=20, samples=4)
        yield dict(name="seq2/%s" % kind, fn="h_seq", args=dict(ctxs=["root", "for", "def", "with"] if not deep else ctxs, first=kind, n=2), cost=60, samples=4)
        few = ["text", "entity", "expr", "lit", "lithtml", "el", "boolattr", "mixattr", "iftrue", "iffalse", "if", "nocomment", "code", "def", "block", "strip"]
        yield dict(name="seq3/%s" % kind, fn="h_seq", args=dict(ctxs=["root"], first=kind, n=3, kinds=few if not deep else KINDS), cost=100, samples=4)
        yield dict(name="boom/%s" % kind, fn="h_boom", args=dict(ctxs=["root", "def", "for"], first=kind), cost=30, samples=4)
    yield dict(name="seq0", fn="h_seq", args=dict(ctxs=ctxs, first="text", n=0), cost=5)
    for kind in INATTR:
        for n in (1, 2, 3):
            yield dict(name="attr%d/%s" % (n, kind), fn="h_attr", args=dict(first=kind, n=n), cost=20 * n, samples=4)
    for kind in ["expr", "lit", "el", "litattr", "iftrue", "comment"]:
        yield dict(name="trans/%s" % kind, fn="h_trans", args=dict(first=kind, n=3), cost=30, samples=4)
    if deep:
        ns = list(range(1, 261)) + list(range(490, 521)) + list(range(740, 761))
    else:
        ns = list(range(1, 11)) + list(range(120, 131)) + list(range(246, 257)) + list(range(496, 507))
    for i, cyc in enumerate(CYCLES):
        step = 6
        for j in range(0, len(ns), step):
            yield dict(name="long/%d/%d" % (i, j), fn="h_long", args=dict(ctxs=["root", "def"] if i > 1 else ctxs, cycle=cyc, ns=ns[j:j + step]), cost=150, samples=2,
                       max_steps=3000000)
    for j in range(0, len(ns), 6):
        yield dict(name="longattr/%d" % j, fn="h_longattr", args=dict(ns=ns[j:j + 6]), cost=60, samples=2, max_steps=3000000)
    for j in range(0, len(CONSTS), 3):
        for bs in (list(BODIES)[:7], list(BODIES)[7:14], list(BODIES)[14:]):
            yield dict(name="const/%d/%s" % (j, bs[0]), fn="h_const", args=dict(consts=[j, j + 3], bodies=bs), cost=50)
    yield dict(name="conststrip", fn="h_conststrip", args=dict(consts=[0, 99]), cost=50)
