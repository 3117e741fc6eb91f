"""C10 Inheritance renders the most derived block or def at every level."""
from props.common import load, esc, UNICODE, CS

BOUNDS = ("chains of 1..3 (thorough 4) templates; each derived template defines any subset of two blocks and two top level defs, each in one of three styles "
          "(plain, calling others, with a nested block) and in both spellings; four layouts of the root; one context variable with an arbitrary character; "
          "context variables with the names of the blocks present or absent; every template of the chain rendered, in two orders, and every block rendered by name")
OUTSIDE = "circular inheritance; recursion between blocks and defs; names defined twice in one template"
ASSUMPTIONS = ["templates come from a loader that resolves names in memory; FileLoader itself is the subject of C12 and C13"]

NAMES = ["x", "y", "f", "g"]        # x, y: blocks; f(), g(p): top level defs.  A body may use the names after its own
LATER = {"x": "yfg", "y": "fg", "f": "g", "g": ""}
LATER_INDEF = {"x": "fyg", "y": "g", "f": "g", "g": ""}      # where block y is within f


def call(name):
    return ("call", name)


def body(level, name, style, later=LATER):
    """The contents of a definition."""
    out = [("t", "%s%d(" % (name, level)), ("v",)]
    if name == "g":
        out.append(("p",))
    if style == "calls":
        for other in later[name]:
            out.append(call(other))
    elif style == "loop":
        if name in ("x", "y"):
            out.append(("for", [("t", ";"), call("g")]))
        elif name == "f":
            out.append(("if", [call("g")]))
    out.append(("t", ")"))
    return out


def place(level, name, style, inner=None, later=LATER):
    return ("place", name, body(level, name, style, later) + (inner or []))


ROOTS = {
    # every definition at top level of the document, used in place and called again
    "flat": lambda st: [("t", "["), place(0, "x", st), ("t", "|"), place(0, "y", st), ("def", "f", body(0, "f", st)), ("def", "g", body(0, "g", st)),
                        call("x"), call("y"), call("f"), call("g"), ("t", "]")],
    # nested blocks
    "nested": lambda st: [("t", "["), ("def", "g", body(0, "g", st)), place(0, "x", "plain", [("el", [place(0, "y", st)])]), ("def", "f", body(0, "f", st)), call("f"), call("y"), ("t", "]")],
    # used before they are defined, in loops and conditions
    "control": lambda st: [call("f"), ("for", [call("x"), ("t", ",")]), ("if", [place(0, "x", st)]), ("def", "f", body(0, "f", st)),
                           ("for", [place(0, "y", "plain")]), ("def", "g", body(0, "g", st)), ("attr", "g")],
    # blocks in defs
    "indef": lambda st: [("def", "f", body(0, "f", "plain") + [place(0, "y", st, None, LATER_INDEF)]), ("t", "["), place(0, "x", st, None, LATER_INDEF), call("f"), ("def", "g", body(0, "g", st)), call("y"), ("t", "]")],
}


def source(nodes, sp):
    out = ""
    for n in nodes:
        k = n[0]
        if k == "t":
            out += n[1]
        elif k == "v":
            out += "$v"
        elif k == "p":
            out += "$p"
        elif k == "call":
            out += "${g('1')}" if n[1] == "g" else "${%s()}" % n[1]
        elif k == "for":
            out += '<py:for each="i in two">' + source(n[1], sp) + "</py:for>"
        elif k == "if":
            out += '<py:if test="yes">' + source(n[1], sp) + "</py:if>"
        elif k == "el":
            out += "<u>" + source(n[1], sp) + "</u>"
        elif k == "attr":
            out += "<i a=\"-${g('1')}\"></i>"
        elif k == "place":
            out += definition(n[1], n[2], sp)
        elif k == "def":
            out += definition(n[1], n[2], sp)
    return out


def definition(name, nodes, sp):
    inner = source(nodes, sp)
    if name in ("x", "y"):
        return '<py:block name="%s">%s</py:block>' % (name, inner) if sp == 0 else '<b py:block="%s">%s</b>' % (name, inner)
    spec = "g(p)" if name == "g" else ("f()" if sp == 0 else "f")
    return '<py:def function="%s">%s</py:def>' % (spec, inner) if sp == 0 else '<b py:def="%s">%s</b>' % (spec, inner)


def collect(nodes, level, sp, table):
    """The definitions in a list of nodes."""
    for n in nodes:
        if n[0] in ("place", "def"):
            table[n[1]] = (n[2], sp)
        for part in n[1:]:
            if isinstance(part, list):
                collect(part, level, sp, table)


class Chain(object):
    def __init__(self):
        self.tables = []        # per level: name -> (body, spelling)
        self.sources = []

    def add_root(self, nodes, sp):
        t = {}
        collect(nodes, 0, sp, t)
        self.tables.append(t)
        self.root = nodes
        self.sources.append("<html>" + source(nodes, sp) + "</html>")

    def add(self, defs, sp):
        level = len(self.tables)
        t = {}
        collect(defs, level, sp, t)
        self.tables.append(t)
        parts = [definition(n[1], n[2], sp) for n in defs]
        self.sources.append('<py:extends href="t%d"> %s\n<!-- c --></py:extends>' % (level - 1, " ".join(parts)))

    def resolve(self, name, top):
        for level in range(top, -1, -1):
            if name in self.tables[level]:
                return self.tables[level][name]
        raise KeyError(name)

    def run(self, nodes, top, v, p=None):
        out = ""
        for n in nodes:
            k = n[0]
            if k == "t":
                out += n[1]
            elif k == "v":
                out += esc(v)
            elif k == "p":
                out += p
            elif k in ("call", "place"):
                out += self.invoke(n[1], top, v)
            elif k == "for":
                out += self.run(n[1], top, v, p) + self.run(n[1], top, v, p)
            elif k == "if":
                out += self.run(n[1], top, v, p)
            elif k == "el":
                out += "<u>" + self.run(n[1], top, v, p) + "</u>"
            elif k == "attr":
                out += '<i a="-' + self.invoke("g", top, v).replace("<b>", "<b>") + '"></i>'
        return out

    def invoke(self, name, top, v):
        nodes, sp = self.resolve(name, top)
        text = self.run(nodes, top, v, "1" if name == "g" else None)
        return "<b>" + text + "</b>" if sp == 1 else text

    def document(self, top, v):
        return "<html>" + self.run(self.root, top, v) + "</html>"


def make_loader(env, sources, cached):
    L = env.mod("tonnikala.loader")

    class Mem(L.Loader):
        def __init__(self):
            L.Loader.__init__(self)
            self.cache = {}

        def load(self, name):
            if cached and name in self.cache:
                return self.cache[name]
            t = self.load_string(sources[name], name)
            self.cache[name] = t
            return t
    return Mem()


def level_defs(env, level, subset, style, root="flat"):
    """What a derived template defines."""
    out = []
    for i, name in enumerate(NAMES):
        if not subset & (1 << i):
            continue
        if style == "nest" and name == "x":
            out.append(("place", "x", body(level, "x", "plain") + [("el", [place(level, "y", "plain")])]))
            continue
        if style == "nest" and name == "y" and subset & 1:
            continue
        out.append(("place" if name in ("x", "y") else "def", name, body(level, name, style if style != "nest" else "plain", LATER_INDEF if root == "indef" else LATER)))
    return out


def h_chain(env, root, depth, styles, subsets, order, ctxnames):
    c = Chain()
    c.add_root(ROOTS[root](env.choice("s0", styles[:2])), env.choice("sp0", [0, 1]))
    for level in range(1, depth + 1):
        subset = env.choice("d%d" % level, subsets)
        style = env.choice("s%d" % level, styles) if subset else "plain"
        c.add(level_defs(env, level, subset, style, root), level % 2)
    v = "<" + env.str("v", 1, VAL)
    cached = env.bool("cached")
    loader = make_loader(env, dict([("t%d" % i, s) for i, s in enumerate(c.sources)]), cached)
    ctx = dict(v=v, two=[1, 2], yes=True)
    if ctxnames:
        for name in ("x", "f"):
            ctx[name] = lambda *a: "CTX"
    levels = list(range(depth + 1))
    if order:
        levels.reverse()
    # every template of the chain; the ones rendered before do not matter
    for top in levels + levels[:1]:
        out = loader.load("t%d" % top).render(dict(ctx))
        env.eq(out, c.document(top, v), "template %d of %s" % (top, c.sources))
    t = loader.load("t%d" % depth)
    for name in ("x", "y", "f"):
        env.eq(t.render(dict(ctx), name), c.invoke(name, depth, v), "%s by name of %s" % (name, c.sources))
    env.eq(loader.load("t0").render(dict(ctx), "x"), c.invoke("x", 0, v), "x of the root by name")


VAL = UNICODE.minus(CS.of(map(ord, "&<>\"'")))


def h_siblings(env, subsets):
    """Two templates extend the same base: neither affects the other or the base."""
    c1 = Chain()
    c2 = Chain()
    for c in (c1, c2):
        c.add_root(ROOTS["flat"]("calls"), 0)
    c1.add(level_defs(env, 1, env.choice("d1", subsets), "plain"), 0)
    c2.add(level_defs(env, 2, env.choice("d2", subsets), "calls"), 1)
    c2.tables[1] = dict(c2.tables[1])
    src = {"t0": c1.sources[0], "a": c1.sources[1], "b": c2.sources[1]}
    loader = make_loader(env, src, True)
    v = "<" + env.str("v", 1, VAL)
    ctx = dict(v=v, two=[1, 2], yes=True)
    order = env.choice("order", ["ab0ab", "0ba0b", "bab0a"])
    for k in order:
        if k == "0":
            env.eq(loader.load("t0").render(dict(ctx)), c1.document(0, v), "base")
        else:
            c = c1 if k == "a" else c2
            env.eq(loader.load(k).render(dict(ctx)), c.document(1, v), "sibling " + k)


def h_names(env):
    """Definitions of a derived template use its own names, variables of the context and the names of its bases."""
    v = "<" + env.str("v", 1, VAL)
    src = {
        "t0": '<html><py:import href="lib" alias="m"/>$v<py:block name="x">X0${m.h()}</py:block><py:def function="f()">F0$v</py:def><py:def function="k()">K0${f()}</py:def>${k()}</html>',
        "t1": '<py:extends href="t0"><py:import href="lib2" alias="n"/><py:block name="x">X1${n.h()}${f()}${only()}</py:block><py:def function="only()">O1$w</py:def></py:extends>',
        "t2": '<py:extends href="t1"><py:def function="f()">F2$w${x2()}</py:def><py:block name="x2">X2${only()}</py:block></py:extends>',
        "lib": '<html><py:def function="h()">H</py:def></html>',
        "lib2": '<html><py:def function="h()">h</py:def></html>',
    }
    loader = make_loader(env, src, env.bool("cached"))
    ctx = dict(v=v, w="W")
    e = esc(v)
    want = ["<html>" + e + "X0HK0F0" + e + "</html>", "<html>" + e + "X1hF0" + e + "O1WK0F0" + e + "</html>", "<html>" + e + "X1hF2WX2O1WO1WK0F2WX2O1W</html>"]
    for top in env.choice("order", [[0, 1, 2, 0], [2, 1, 0, 2], [1, 2, 1, 0]]):
        env.eq(loader.load("t%d" % top).render(dict(ctx)), want[top], "names in template %d" % top)


def cases(tier):
    deep = tier == "thorough"
    styles = ["plain", "calls", "loop", "nest"]
    allsub = list(range(16))
    for root in ROOTS:
        for order in (0, 1):
            yield dict(name="chain0/%s/%d" % (root, order), fn="h_chain", args=dict(root=root, depth=0, styles=styles, subsets=allsub, order=order, ctxnames=True), cost=10)
            for cn in (False, True):
                yield dict(name="chain1/%s/%d/%d" % (root, order, cn), fn="h_chain", args=dict(root=root, depth=1, styles=styles, subsets=allsub, order=order, ctxnames=cn), cost=60, samples=8)
            for i in range(16):
                if not deep and i % 2 != order:
                    continue
                # the first derived template: subset i; the second: any
                yield dict(name="chain2/%s/%d/%d" % (root, order, i), fn="h_chain2", args=dict(root=root, first=i, styles=styles if deep else styles[1:4:2], order=order, base=["plain", "calls"] if deep else ["calls"]), cost=150, samples=6)
    if deep:
        for root in ROOTS:
            for i in range(16):
                yield dict(name="chain3/%s/%d" % (root, i), fn="h_chain3", args=dict(root=root, first=i), cost=300, samples=6)
    yield dict(name="siblings/0", fn="h_siblings", args=dict(subsets=allsub[:8]), cost=100)
    yield dict(name="siblings/1", fn="h_siblings", args=dict(subsets=allsub[8:]), cost=100)
    yield dict(name="names", fn="h_names", args={}, cost=20)


def h_chain2(env, root, first, styles, order, base):
    chain_n(env, root, [first], 2, styles, order, base)


def h_chain3(env, root, first):
    chain_n(env, root, [first], 3, ["calls"], 0, ["calls"])


def chain_n(env, root, firsts, depth, styles, order, base):
    c = Chain()
    sp = env.choice("sp0", [0, 1])
    c.add_root(ROOTS[root](env.choice("s0", base)), sp)
    for level in range(1, depth + 1):
        subset = env.choice("d%d" % level, firsts if level == 1 else list(range(16)))
        style = env.choice("s%d" % level, styles) if subset else "plain"
        c.add(level_defs(env, level, subset, style, root), (level + sp) % 2)
    v = "<" + env.str("v", 1, VAL)
    loader = make_loader(env, dict([("t%d" % i, s) for i, s in enumerate(c.sources)]), True)
    ctx = dict(v=v, two=[1, 2], yes=True)
    levels = list(range(depth + 1))
    if order:
        levels.reverse()
    for top in levels + levels[:1]:
        env.eq(loader.load("t%d" % top).render(dict(ctx)), c.document(top, v), "template %d of %s" % (top, c.sources))
    for name in ("x", "y", "f"):
        env.eq(loader.load("t%d" % depth).render(dict(ctx), name), c.invoke(name, depth, v), "%s by name of %s" % (name, c.sources))
