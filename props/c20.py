"""C20 Renders are independent and leave their inputs unchanged."""
from props.common import load, esc, UNICODE, CS

BOUNDS = ("%d templates (all constructs, with code, default values, closures, imports, blocks and two levels of inheritance), alone and in all pairs of a subset; histories of 2 and 3 "
          "(thorough 4) renders, each with a context of its own: conditions, strings of 0..1 characters of all of Unicode, lists, presence of names, and whether a function "
          "of the context raises; in sequence, with the joins at the end in either order, with all bindings made before the first call, and with a whole render inside "
          "of another one at each call of a function of the context")
OUTSIDE = "templates that store into objects of the context or of the modules of Python; renders in concurrent threads"
ASSUMPTIONS = ["templates come from a loader that resolves names in memory and keeps what it has loaded; FileLoader itself is the subject of C12 and C13"]

VAL = UNICODE.minus(CS.of(map(ord, ">\"'&")))


class Boom(Exception):
    pass


class Failed(object):
    """What a render is expected to raise."""

    def __init__(self, *kinds):
        self.kinds = kinds


class V(object):
    """The values of one render."""

    def __init__(self, env, tag, rich):
        self.c = env.bool(tag + "c")
        self.s = env.strs(tag + "s", 0 if rich else 1, 1, VAL)
        self.boom = env.bool(tag + "boom")
        self.extra = env.bool(tag + "extra") if rich else self.c
        self.l = ["p", self.s] if self.c else [self.s]
        self.d = {"k": self.s, "z": None if self.c else "z"}
        self.m = self.s + tag
        self.tag = tag
        self.hook = None

    def g(self, x="g"):
        if self.hook is not None:
            hook, self.hook = self.hook, None
            hook()
        if self.boom:
            raise Boom(self.tag)
        return x

    def context(self):
        c = dict(c=self.c, s=self.s, l=self.l, d=self.d, m=self.m, g=self.g)
        if self.extra:
            c["extra"] = "E" + self.tag
            c["len"] = lambda x: "L" + self.tag
            c["f2"] = lambda: "F" + self.tag
        return c


def guarded(text):
    """Output with a call of g in it."""
    def out(v):
        if v.boom:
            return Failed(Boom)
        return text(v)
    return out


def named_extra(text):
    def out(v):
        if not v.extra:
            return Failed(NameError)
        return text(v)
    return out


def only_if(text):
    def out(v):
        if not v.c:
            return Failed(NameError)
        return text(v)
    return out


# name: template, expected output
T = {
    "text": ("<a>$s${g()}</a>", guarded(lambda v: "<a>" + esc(v.s) + "g</a>")),
    "empty": ("<a></a>", lambda v: "<a></a>"),
    "if": ("<a><b py:if='c'>$s${g()}</b><i py:if='not c'>${s}</i></a>",
           lambda v: ("<a><b>" + esc(v.s) + "g</b></a>" if not v.boom else Failed(Boom)) if v.c else "<a><i>" + esc(v.s) + "</i></a>"),
    "attribute": ("<a b='$s' c='${g()}x'>y</a>", guarded(lambda v: '<a b="' + esc(v.s) + '" c="gx">y</a>')),
    "attrs": ("<a b='x' py:attrs='d'>${g()}</a>", guarded(lambda v: '<a b="x" k="' + esc(v.s) + ('"' if v.c else '" z="z"') + ">g</a>")),
    "attrs-code": ("<a py:attrs=\"{'k': g(), 'l': s}\"></a>", guarded(lambda v: '<a k="g" l="' + esc(v.s) + '"></a>')),
    "for": ("<a><i py:for='x in l'>$x${g()}</i></a>", guarded(lambda v: "<a>" + "".join(["<i>" + esc(x) + "g</i>" for x in v.l]) + "</a>")),
    "with": ("<a><py:with vars='mm = m + \"!\"; k = g()'>$mm$k</py:with>$m</a>", guarded(lambda v: "<a>" + esc(v.m) + "!g" + esc(v.m) + "</a>")),
    "strip": ("<a><b py:strip='g() and c'>$s</b></a>", guarded(lambda v: "<a>" + esc(v.s) + "</a>" if v.c else "<a><b>" + esc(v.s) + "</b></a>")),
    "content": ("<a><b py:content='s + g()'>y</b><i py:replace='m'/></a>", guarded(lambda v: "<a><b>" + esc(v.s) + "g</b>" + esc(v.m) + "</a>")),
    "code": ("<a><?python z = [s]\nz.append(g()) ?>${''.join(z)}${len(z)}</a>",
             guarded(lambda v: "<a>" + esc(v.s) + "g" + ("L" + v.tag if v.extra else "2") + "</a>")),
    "code-context": ("<a><?python z = m + g() ?>$z</a>", guarded(lambda v: "<a>" + esc(v.m) + "g</a>")),
    "code-if": ("<a><?python\nif c:\n    w = s\n?>$w</a>", only_if(lambda v: "<a>" + esc(v.s) + "</a>")),
    "code-for": ("<a><py:for each='x in l'><?python q = x ?></py:for>$q</a>", lambda v: "<a>" + esc(v.s) + "</a>"),
    "name": ("<a>$s$extra</a>", named_extra(lambda v: "<a>" + esc(v.s) + "E" + v.tag + "</a>")),
    "builtin": ("<a>${len(s + 'x')}$s</a>", lambda v: "<a>" + ("L" + v.tag if v.extra else str(len(v.s) + 1)) + esc(v.s) + "</a>"),
    "generated": ("<a>${''.join([x + g() for x in l])}</a>", guarded(lambda v: "<a>" + "".join([esc(x) + "g" for x in v.l]) + "</a>")),
    "lambda": ("<a>${(lambda z=s: z + m)()}${g()}</a>", guarded(lambda v: "<a>" + esc(v.s + v.m) + "g</a>")),
    "def": ("<a><py:def function='f(x, y=m)'>$x$y$s</py:def>${f(g())}</a>", guarded(lambda v: "<a>g" + esc(v.m) + esc(v.s) + "</a>")),
    "def-default": ("<a><py:def function='f(x, y=[])'><?python y.append(x) ?>${''.join(y)};</py:def>${f(s)}${f(g())}</a>",
                    guarded(lambda v: "<a>" + esc(v.s) + ";" + esc(v.s) + "g;</a>")),
    "def-default-nested": ("<a><b py:if='True'><py:def function='f(x, y={})'><?python y[len(y)] = x ?>$x${y[0]};</py:def>${f(s)}${f(g())}</b></a>".replace("len(y)", "sum([1 for _ in y])"),
                           guarded(lambda v: "<a><b>" + esc(v.s) + esc(v.s) + ";g" + esc(v.s) + ";</b></a>")),
    "def-if": ("<a><py:if test='c'><py:def function='f2()'>$s</py:def></py:if>${f2()}${g()}</a>", None),
    "def-closure": ("<a><py:for each='x in l'><py:def function='f()'>$x$m</py:def>${f()}</py:for>${g()}</a>",
                    guarded(lambda v: "<a>" + "".join([esc(x) + esc(v.m) for x in v.l]) + "g</a>")),
    "def-recursive": ("<a><py:def function='f(n)'><b py:if='n'>$s${f(n[1:])}</b></py:def>${f(l)}${g()}</a>",
                      guarded(lambda v: "<a>" + ("<b>" + esc(v.s)) * len(v.l) + "</b>" * len(v.l) + "g</a>")),
    "block": ("<a><py:block name='b'>$s${g()}</py:block><i py:block='e'>$m</i></a>", guarded(lambda v: "<a>" + esc(v.s) + "g<i>" + esc(v.m) + "</i></a>")),
    "block-name": ("<a><py:block name='extra'>$s</py:block>${g()}${extra()}</a>", guarded(lambda v: "<a>" + esc(v.s) + "g" + esc(v.s) + "</a>")),
    "buffers": ("<a><py:def function='f()'>$s${g()}</py:def><?python b = f() ?>$b$b</a>", guarded(lambda v: "<a>" + (esc(v.s) + "g") * 2 + "</a>")),
    "literal": ("<a>${literal(s)}${literal(g())}</a>", guarded(lambda v: "<a>" + v.s + "g</a>")),
    "extends": ("<py:extends href='base'><py:block name='b'>c$s${g()}</py:block></py:extends>", guarded(lambda v: "<html>" + esc(v.m) + "<p>c" + esc(v.s) + "g</p>q" + esc(v.s) + ";1</html>")),
    "extends-base": ("<py:extends href='base'></py:extends>", guarded(lambda v: "<html>" + esc(v.m) + "<p>b" + esc(v.s) + "</p>q" + esc(v.s) + ";1</html>")),
    "extends-def": ("<py:extends href='base'><py:def function='q(y=[])'><?python y.append(s) ?>${''.join(y)}${g()}</py:def></py:extends>",
                    guarded(lambda v: "<html>" + esc(v.m) + "<p>b" + esc(v.s) + "</p>" + esc(v.s) + "g1</html>")),
    "extends-two": ("<py:extends href='middle'><py:block name='b'>d$m</py:block></py:extends>",
                    guarded(lambda v: "<html>" + esc(v.m) + "<p>d" + esc(v.m) + "</p>m" + esc(v.s) + "1</html>")),
    "import": ("<a><py:import href='lib' alias='o'/>${o.h(s)}${o.h(g())}</a>", guarded(lambda v: "<a>" + esc(v.s) + esc(v.m) + "1;g" + esc(v.m) + "2;</a>")),
    "import-twice": ("<a><py:import href='lib' alias='o'/><py:import href='lib' alias='p'/>${o.h(s)}${p.h(g())}</a>",
                     guarded(lambda v: "<a>" + esc(v.s) + esc(v.m) + "1;g" + esc(v.m) + "1;</a>")),
    "import-if": ("<a><py:if test='c'><py:import href='lib' alias='o'/>${o.h(g())}</py:if>$s</a>",
                  lambda v: ("<a>g" + esc(v.m) + "1;" + esc(v.s) + "</a>" if not v.boom else Failed(Boom)) if v.c else "<a>" + esc(v.s) + "</a>"),
}
FILES = {
    "base": "<html>$m<p><py:block name='b'>b$s</py:block></p><py:def function='q()'>q$s;</py:def>${q()}${one(1)}<py:def function='one(n, y=[])'><?python y.append(g()) ?>${sum([1 for _ in y])}</py:def></html>",
    "middle": "<py:extends href='base'><py:block name='b'>$s</py:block><py:def function='q()'>m$s</py:def></py:extends>",
    "lib": "<py:def function='h(x, y=[])'><?python y.append(x) ?>$x$m${sum([1 for _ in y])};</py:def>",
}
T["def-if"] = (T["def-if"][0], lambda v: Failed(NameError) if not v.c else (Failed(Boom) if v.boom else "<a>" + esc(v.s) + "g</a>"))
BOUNDS = BOUNDS % len(T)


def make_loader(env):
    L = env.mod("tonnikala.loader")

    class Mem(L.Loader):
        def __init__(self):
            L.Loader.__init__(self)
            self.cache = {}

        def load(self, name):
            if name not in self.cache:
                self.cache[name] = self.load_string(FILES[name] if name in FILES else T[name][0], name)
            return self.cache[name]
    return Mem()


def attempt(f):
    try:
        return f()
    except (NameError, Boom) as e:
        return e


def verify(env, got, v, name, what):
    want = T[name][1](v)
    if isinstance(want, Failed):
        if not isinstance(got, want.kinds):
            env.fail(what + ": the render raises, as its context demands")
        env.check(True, what)
        if isinstance(got, Boom):
            env.eq(got.args[0], v.tag, what + ": the exception is the one of this context")
        return
    if isinstance(got, Exception):
        env.fail(what + ": the render does not raise: " + str(got.__class__.__name__))
        return
    env.eq(got, want, what + ": the output for this context")


class Kept(object):
    """A context and what it held."""

    def __init__(self, v):
        self.v = v
        self.ctx = v.context()
        self.items = list(self.ctx.items())
        self.l = list(v.l)
        self.d = list(v.d.items())

    def check(self, env):
        now = list(self.ctx.items())
        env.check(len(now) == len(self.items), "no name is added to the context or removed")
        for (k, x), (k2, x2) in zip(now, self.items):
            env.check(k == k2 and x is x2, "the context still holds the same objects")
        env.check(len(self.v.l) == len(self.l), "the list is unchanged")
        for x, y in zip(self.v.l, self.l):
            env.check(x is y, "the list is unchanged")
        for (k, x), (k2, x2) in zip(self.v.d.items(), self.d):
            env.check(k == k2 and x is x2, "the mapping is unchanged")


def h_sequence(env, names, rich):
    """One render after the other."""
    L = make_loader(env)
    for i, name in enumerate(names):
        v = V(env, "abcd"[i], rich)
        k = Kept(v)
        t = L.load(name)
        got = attempt(lambda: t.render(k.ctx))
        verify(env, got, v, name, "render %d" % i)
        k.check(env)


def h_same(env, name):
    """The same context twice, and again after a context of another render."""
    L = make_loader(env)
    t = L.load(name)
    v = V(env, "a", True)
    k = Kept(v)
    w = V(env, "b", False)
    for i in range(2):
        verify(env, attempt(lambda: t.render(k.ctx)), v, name, "the same context")
        k.check(env)
    kw = Kept(w)
    verify(env, attempt(lambda: t.render(kw.ctx)), w, name, "the other context")
    verify(env, attempt(lambda: t.render(k.ctx)), v, name, "the same context")
    k.check(env)
    kw.check(env)


def h_buffers(env, name, first):
    """Both buffers are made before either is joined."""
    L = make_loader(env)
    t = L.load(name)
    v, w = V(env, "a", False), V(env, "b", False)
    kv, kw = Kept(v), Kept(w)
    a = attempt(lambda: t.render_to_buffer(kv.ctx))
    b = attempt(lambda: t.render_to_buffer(kw.ctx))
    pending = [(a, v), (b, w)]
    if not first:
        pending = pending[::-1]
    for x, y in pending:
        verify(env, x if isinstance(x, Exception) else x.join(), y, name, "joined")
    for x, y in pending:
        verify(env, x if isinstance(x, Exception) else x.join(), y, name, "joined again")
    kv.check(env)
    kw.check(env)


def h_bound(env, name):
    """Both contexts are bound before either is run."""
    LM = env.mod("tonnikala.loader")
    L = make_loader(env)
    t = L.load(name)
    v, w = V(env, "a", False), V(env, "b", False)
    cv, cw = LM.make_template_context(v.context()), LM.make_template_context(w.context())
    t.bind(cv)
    t.bind(cw)
    verify(env, attempt(lambda: cv["__main__"]().join()), v, name, "bound first")
    verify(env, attempt(lambda: cw["__main__"]().join()), w, name, "bound second")
    if name != "name":
        t.bind(LM.make_template_context(w.context()))


def h_nested(env, outer, inner):
    """A render within a render."""
    L = make_loader(env)
    t, u = L.load(outer), L.load(inner)
    v, w = V(env, "a", False), V(env, "b", False)
    kv, kw = Kept(v), Kept(w)
    state = []
    v.hook = lambda: state.append(attempt(lambda: u.render(kw.ctx)))
    got = attempt(lambda: t.render(kv.ctx))
    if state:
        verify(env, state[0], w, inner, "the inner render")
    verify(env, got, v, outer, "the outer render")
    kv.check(env)
    kw.check(env)


def h_content(env, outer, inner):
    """What a render made is put into another one, through the context."""
    L = make_loader(env)
    t, u = L.load(outer), L.load(inner)
    v, w = V(env, "a", False), V(env, "b", False)
    v.boom = w.boom = False
    b = attempt(lambda: u.render_to_buffer(w.context()))
    if isinstance(b, Exception):
        verify(env, b, w, inner, "the inner render")
        return
    s = v.s
    ctx = v.context()
    outputs = []
    for value in (b, env.mod("tonnikala.loader").literal(b.join()), s):
        ctx["s"] = value
        outputs.append(attempt(lambda: t.render(ctx)))
    verify(env, b.join(), w, inner, "the inner render")
    verify(env, outputs[2], v, outer, "the outer render")
    if not isinstance(outputs[0], Exception):
        env.eq(outputs[0], outputs[1], "buffers and what they join to are the same as values")


PAIRED = ["text", "code", "code-if", "name", "builtin", "def-default", "def-if", "block-name", "extends", "extends-def", "import"]


def cases(tier):
    deep = tier == "thorough"

    def case(title, fn, cost, **args):
        return dict(name=title, fn=fn, args=args, cost=cost, samples=6)
    for n in sorted(T):
        yield case("sequence2/" + n, "h_sequence", 100, names=[n, n], rich=True)
        yield case("sequence3/" + n, "h_sequence", 300, names=[n, n, n], rich=deep)
        if deep:
            yield case("sequence4/" + n, "h_sequence", 3000, names=[n] * 4, rich=False)
        yield case("same/" + n, "h_same", 100, name=n)
        for first in (True, False):
            yield case("buffers/%s/%d" % (n, first), "h_buffers", 30, name=n, first=first)
        yield case("bound/" + n, "h_bound", 30, name=n)
        yield case("nested/%s/%s" % (n, n), "h_nested", 60, outer=n, inner=n)
    for n in PAIRED if not deep else sorted(T):
        for m in PAIRED if not deep else sorted(T):
            if n != m:
                yield case("pair/%s/%s" % (n, m), "h_sequence", 60, names=[n, m] if not deep else [n, m, n], rich=False)
                yield case("nested/%s/%s" % (n, m), "h_nested", 60, outer=n, inner=m)
    for n in ("text", "attribute", "with", "def-recursive", "block", "extends", "literal"):
        for m in ("text", "for", "extends", "import"):
            yield case("content/%s/%s" % (n, m), "h_content", 60, outer=n, inner=m)
