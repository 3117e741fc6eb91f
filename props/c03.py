"""C03 Dollar signs are split into text and expressions as documented."""
from props.common import load, UNICODE, CS
from props.c04 import code, unbraced, isword, isdigit, Doubt, valid, CTRL

BOUNDS = ("every text of 0..5 (thorough 0..6) characters over all of Unicode, and every text with 0..3 (thorough 0..4) arbitrary characters around "
          "each of the expression forms; at the template level every text of up to 4 (thorough 5) characters over an alphabet of dollar, "
          "brackets, dot, letters, digit, underscore and a non-ASCII letter, in text and in attribute values, translated and not")
OUTSIDE = ("within bracketed parts: strings and comments (C04), digits and control characters; a name is a run of word characters (re \\w) "
           "that does not start with a decimal digit")
ASSUMPTIONS = ["symx/pytok.py stands in for CPython's C tokenizer on symbolic text (see C04)"]
PRELOAD = ["tonnikala.loader", "tonnikala.expr"]

ANY = UNICODE.minus(CS.of([0, 13]))
START = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def split(text):
    """Reference: list of ("t", literal) and ("e", full, source); None if an expression has no end."""
    out = []
    lit = []
    n = len(text)
    i = 0
    while i < n:
        ch = text[i]
        if ch != "$":
            lit.append(ch)
            i += 1
            continue
        nx = text[i + 1:i + 2]
        if nx == "$":
            lit.append("$")
            i += 2
            continue
        if nx == "{" or (nx != "" and nx in START):
            if lit:
                out.append(("t", "".join(lit)))
                lit = []
            if nx == "{":
                e = code(text, i + 1)
                if e is None:
                    return None
                out.append(("e", text[i:e], text[i + 2:e - 1]))
                i = e
            else:
                e = unbraced(text[i:])
                if e is None:
                    return None
                out.append(("e", text[i:i + e], text[i + 1:i + e]))
                i += e
            continue
        lit.append("$")
        i += 1
    if lit:
        out.append(("t", "".join(lit)))
    return out


def flatten(node, out):
    if hasattr(node, "children"):
        for c in node.children:
            flatten(c, out)
    elif hasattr(node, "expression"):
        out.append(("e", node.string, node.expression))
    elif out and out[-1][0] == "t":
        out[-1] = ("t", out[-1][1] + node.text)
    elif len(node.text):
        out.append(("t", node.text))
    return out


def compare(env, text, translatable=False):
    try:
        want = split(text)
    except Doubt:
        env.assume(False)
    X = env.mod("tonnikala.expr")
    E = env.mod("tonnikala.runtime.exceptions").TemplateSyntaxError
    try:
        node = X.handle_text_node(text, translatable=translatable)
    except E:
        env.reach("error")
        env.check(want is None, "a text with complete expressions is split")
        return
    got = flatten(node, [])
    if want is None:
        # mismatched brackets within braces: left to the Python parser
        env.reach("other")
        bad = False
        for p in got:
            if p[0] == "e" and code("(" + p[2] + "\n)", 0) != len(p[2]) + 3:
                bad = True
        env.check(bad, "an expression without end is rejected")
        return
    env.reach("ok")
    env.check(len(got) == len(want), "number of pieces")
    for g, w in zip(got, want):
        env.check(g[0] == w[0], "kind of the piece")
        if g[0] == "t":
            env.eq(g[1], w[1], "literal piece")
        else:
            env.eq(g[1], w[1], "text of the expression")
            env.eq(g[2], w[2], "source of the expression")
    # nothing lost, nothing added: the pieces make up the text but for doubled dollars
    i = 0
    whole = []
    for g in got:
        if g[0] == "e":
            whole.append(g[1])
        else:
            whole.append(g[1])
    env.eq("".join(whole), undouble(text, want), "the pieces reproduce the text")


def undouble(text, want):
    out = []
    for w in want:
        out.append(w[1])
    return "".join(out)


def h_any(env, n, tr):
    compare(env, env.str("s", n, ANY), tr)


def h_around(env, pre, mid, n1, n2, tr):
    s = env.str("s", n1, ANY)
    t = env.str("t", n2, ANY)
    compare(env, pre + s + mid + t, tr)


ALPHA = CS.of(map(ord, "${}()[].x1_ \xe9"))


class Rec(object):
    """Renders as the source that made it."""

    def __init__(self, src):
        self.src = src

    def __call__(self, *a, **k):
        return Rec(self.src + "(" + ",".join([self.arg(x) for x in a]) + ")")

    def arg(self, x):
        return x.src if hasattr(x, "src") else repr(x)

    def __getitem__(self, i):
        return Rec(self.src + "[" + self.arg(i) + "]")

    def __getattr__(self, n):
        if n[:2] == "__":
            raise AttributeError(n)
        return Rec(self.src + "." + n)

    def __str__(self):
        return "<" + self.src + ">"

    def __iter__(self):
        return iter([])


class Names(dict):
    def __missing__(self, k):
        raise KeyError(k)


def value(env, src):
    """What the expression evaluates to with every name bound to a recorder of that name; None if it is no expression."""
    import ast
    src = src.strip()
    if not valid(src):
        return None
    names = {n.id for n in ast.walk(ast.parse(src, mode="eval")) if isinstance(n, ast.Name)}
    return {n: Rec(n) for n in names}, src


def evalpy(src, ctx):
    """Plain Python evaluation by the interpreter itself (the text is concrete here)."""
    import builtins
    return getattr(builtins, "eval")(src, dict(ctx))


def h_load(env, pos, pre, n, post, tr):
    s = env.concrete(env.str("s", n, ALPHA))
    text = pre + s + post
    E = env.mod("tonnikala.runtime.exceptions").TemplateSyntaxError
    doubt = False
    try:
        want = split(text)
    except Doubt:
        # digits within brackets: the alphabet is small enough for the scanner to be right
        want = split(text.replace("1", "x"))
        if want is not None:
            p = 0
            w2 = []
            for w in want:
                # same pieces, with the digits put back
                k = len(w[1])
                full = text[p:p + k] if w[0] == "e" else None
                if w[0] == "t":
                    q = p
                    lit = []
                    while len(lit) < k:
                        if text[q:q + 2] == "$$":
                            q += 1
                        lit.append(text[q])
                        q += 1
                    p = q
                    w2.append(("t", "".join(lit)))
                else:
                    p += k
                    w2.append(("e", full, full[2:-1] if full[1] == "{" else full[1:]))
            if "$1" in text or ".1" in text or "1" in text and any(w[0] == "e" and w[1][:2] != "${" for w in w2):
                env.assume(False)
            want = w2
    pre_, post_ = ("<a>", "</a>") if pos == "text" else ('<a b="', '"></a>')
    expect = None
    ctx = {}
    if want is not None:
        expect = []
        for w in want:
            if w[0] == "t":
                expect.append(w[1])
                continue
            v = value(env, w[2])
            if v is None:
                expect = None
                break
            ctx.update(v[0])
            expect.append(v[1])
    try:
        t = load(env, pre_ + text + post_, translatable=tr)
    except E:
        env.reach("rejected")
        env.check(expect is None, "a text with complete expressions is accepted")
        return
    env.check(expect is not None, "a text with an incomplete expression is rejected")
    env.reach("accepted")
    out = []
    try:
        for w, x in zip(want, expect):
            out.append(x if w[0] == "t" else str(evalpy(x, ctx)))
    except Exception:
        # the expression itself fails
        try:
            t.render(ctx)
        except Exception:
            return
        env.fail("a failing expression fails")
    body = "".join(out).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#39;")
    try:
        got = t.render(ctx)
    except Exception as e:
        env.fail("rendering fails: %s" % type(e).__name__)
    env.eq(got, pre_ + body + post_, "rendered text")


MIDS = ["$x", "${x}", "$$", "$", "$x.y", "$x(a)", "$x[a]", "$x(a).y[b]", "${x}$y", "$$$x", "${(x)[a]}{", "$x.", "$$x", "$x$"]


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 6 if not deep else 7):
        for tr in (False, True):
            if tr and n > (3 if not deep else 5):
                continue
            yield dict(name="any/%d%s" % (n, "t" if tr else ""), fn="h_any", args=dict(n=n, tr=tr), cost=7 ** n)
    for m in MIDS:
        for a, b in ((1, 1), (0, 2), (2, 0), (0, 3)) + (((1, 2), (0, 4)) if deep else ()):
            yield dict(name="around %s/%d.%d" % (m, a, b), fn="h_around", args=dict(pre="", mid=m, n1=a, n2=b, tr=False), cost=8 ** (a + b))
        yield dict(name="around %s/t" % m, fn="h_around", args=dict(pre="", mid=m, n1=1, n2=1, tr=True), cost=64)
    for pos in ("text", "attr"):
        for tr in (False, True):
            for n in range(0, 4 if not deep else 5):
                yield dict(name="load %s/%d%s" % (pos, n, "t" if tr else ""), fn="h_load", args=dict(pos=pos, pre="", n=n, post="", tr=tr),
                           cost=15 ** n, samples=12)
            for pre in ("$", "x$", "$x", "$x.x", "$$", "${x", "$x(", "$x[x]", "$_"):
                for post in ("", "x", "}", ")"):
                    k = 2 if not deep else 3
                    yield dict(name="load %s %s.%s%s" % (pos, pre, post, "t" if tr else ""), fn="h_load",
                               args=dict(pos=pos, pre=pre, n=k, post=post, tr=tr), cost=15 ** k, samples=6)
