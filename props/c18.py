"""C18 The JavaScript runtime escapes and renders attributes correctly."""
import os
from props import jsx
from props.common import esc, UNICODE, CS
from symx import jsnode

RUNTIME = "/repo/tonnikala/runtime/javascript.js"
BOUNDS = ("strings of 0..3 (thorough 0..5) characters of all of Unicode in each place; every sequence of up to 3 (thorough 4) calls of the ways in which templates output, "
          "with up to 2 arguments of 26 kinds: strings, numbers, booleans, null, undefined, markup, buffers, templates, arrays, objects with and without html or toString; "
          "attributes of every such kind, attribute lists of 0..3 (thorough 0..4) pairs; contexts with and without prototype, with own, inherited and global names, 18 names")
OUTSIDE = ("surrogates; objects whose html is not a function; names of attributes that are not names; the functions of rendered templates that need jQuery "
           "(appendTo and the like); attribute lists that are not arrays; String.prototype or other builtins that were replaced")
ASSUMPTIONS = ["props/jsx.py models the parts of JavaScript that the runtime uses; counterexamples and a sample of the paths are replayed by node"]
OPTS = {}
PRELOAD = ["props.jsx"]

DOM = UNICODE.minus(CS.of(range(0xD800, 0xE000)))
# one character that is escaped, and those that are not: what escaping makes of the others is decided with single calls
TWO = DOM.minus(CS.of(map(ord, "<>\"'")))

# makes a value of a kind from a string; v.k is the kind
PRELUDE = """function (args) {
  var deps = mods[0][0], rt = mods[0][1]();
  function Plain(s) { this.s = s; }
  Plain.prototype.toString = function () { return this.s; };
  function Html(s) { this.s = s; }
  Html.prototype.html = function () { return rt.literal(this.s); };
  Html.prototype.toString = function () { return 'not this'; };
  function mk(v) {
    var b, k = v[0], s = v[1];
    if (k == 'str') return s;
    if (k == 'undef') return undefined;
    if (k == 'null') return null;
    if (k == 'nan') return NaN;
    if (k == 'inf') return -Infinity;
    if (k == 'plain' || k == 'num' || k == 'bool') return s;
    if (k == 'markup') return rt.literal(s);
    if (k == 'escaped') return rt.escape(s);
    if (k == 'twice') return rt.escape(rt.escape(s));
    if (k == 'emptybuf') return rt.Buffer();
    if (k == 'bufescape') { b = rt.Buffer(); b.escape(s, 1, null); return b; }
    if (k == 'buf') { b = rt.Buffer(); b(s, rt.escape(s)); return b; }
    if (k == 'bufhtml') { b = rt.Buffer(); b(s); return b.html(); }
    if (k == 'bufbuf') { b = rt.Buffer(); b('['); b(mk(['buf', s])); b(mk(['attrs', s]), ']'); return b; }
    if (k == 'attrs') return rt.outputAttrs([['x', s]]);
    if (k == 'noattrs') return rt.outputAttrs([]);
    if (k == 'template') return new rt.BoundTemplate({__main__: function () { var b = rt.Buffer(); b(s); return b; }});
    if (k == 'obj') return new Plain(s);
    if (k == 'html') return new Html(s);
    if (k == 'arr') return [s, 1, [null, s]];
    if (k == 'arrmarkup') return [rt.literal(s)];
    if (k == 'emptyarr') return [];
    if (k == 'object') return {};
    throw new TypeError(k);
  }
"""

# kind -> how it is output when escaped / as it is
KINDS = ["str", "num0", "num1", "neg", "frac", "nan", "inf", "true", "false", "null", "undef", "markup", "escaped", "twice", "emptybuf", "bufescape",
         "buf", "bufhtml", "bufbuf", "attrs", "noattrs", "template", "obj", "html", "arr", "arrmarkup", "emptyarr", "object"]
# kinds that templates output without escaping: what they wrote themselves, calls of defs and blocks
RAW = ["str", "markup", "escaped", "emptybuf", "buf", "bufhtml", "bufbuf", "attrs", "noattrs", "bufescape"]
CONST = {"num0": 0, "num1": 1, "neg": -7, "frac": 2.5, "true": True, "false": False}
TEXT = {"num0": "0", "num1": "1", "neg": "-7", "frac": "2.5", "true": "true", "false": "false", "null": "null", "undef": "undefined", "nan": "NaN",
        "inf": "-Infinity", "object": "[object Object]", "emptyarr": "", "emptybuf": "", "noattrs": ""}


def value(kind, s):
    """What mk is given."""
    if kind in CONST:
        return ["plain", CONST[kind]]
    return [kind, s]


def markup(kind, s):
    """The text of a value that is markup, None for others."""
    return {"markup": s, "escaped": esc(s), "twice": esc(s), "emptybuf": "", "noattrs": "", "bufescape": esc(s) + "1null", "buf": s + esc(s), "bufhtml": s,
            "bufbuf": "[" + s + esc(s) + ' x="' + esc(s) + '"]', "attrs": ' x="' + esc(s) + '"', "template": s, "html": s}.get(kind)


def string(kind, s):
    """String(value) of a value that is not markup."""
    if kind in ("str", "obj", "arrmarkup"):
        return s
    if kind == "arr":
        return s + ",1,," + s
    return TEXT[kind]


def escaped(kind, s):
    m = markup(kind, s)
    return m if m is not None else esc(string(kind, s))


def raw(kind, s):
    m = markup(kind, s)
    return m if m is not None else string(kind, s)


def attr(name, kind, s):
    if kind in ("null", "undef", "false"):
        return ""
    if kind == "true":
        return " " + name + '="' + name + '"'
    return " " + name + '="' + escaped(kind, s) + '"'


def go(env, body, args):
    return jsx.run(env, [jsnode.read(RUNTIME)], PRELUDE + body + "\n}", [args])


def h_escape(env, n):
    """The characters of a string, in every way in which it is escaped."""
    s = env.str("s", n, DOM)
    tag, r = go(env, """
      var b = rt.Buffer(), c = rt.Buffer();
      b.escape(args[0]);
      c.attr('n', args[0]);
      return [String(rt.escape(args[0])), b.toString(), c.toString(), String(rt.outputAttrs([['k', args[0]]])), String(rt.literal(args[0])),
              rt.escape(args[0]).html().toString()];
    """, [s])
    env.check(tag == "ok", "escaping is not an error")
    e = esc(s)
    env.eq(r, [e, e, ' n="' + e + '"', ' k="' + e + '"', s, e], "escaped once")


def h_kind(env, kind, n):
    """One value of a kind, in every place."""
    s = env.strs("s", 0, n, DOM)
    tag, r = go(env, """
      function one(f) { var b = rt.Buffer(); f(b); return b.toString(); }
      return [one(function (b) { b(rt.escape(mk(args[0]))); }), one(function (b) { b.escape(mk(args[0])); }),
              one(function (b) { b.attr('name', mk(args[0])); }), String(rt.outputAttrs([['name', mk(args[0])]])),
              one(function (b) { b(rt.outputAttrs([['name', mk(args[0])]])); }), one(function (b) { b('<', rt.escape(mk(args[0])), '>'); }),
              String(rt.literal(mk(args[0]))), one(function (b) { b(rt.escape(rt.literal(mk(args[0])))); })];
    """, [value(kind, s)])
    env.check(tag == "ok", "%s is output" % kind)
    e, a = escaped(kind, s), attr("name", kind, s)
    # literal() of an object takes its string
    lit = "not this" if kind == "html" else raw(kind, s)
    env.eq(r, [e, e, a, a, a, "<" + e + ">", lit, lit], "what %s is output as" % kind)


CALLS = ["text", "escaped", "escape", "attr", "attrs", "two", "raw", "escape2"]


def h_sequence(env, first, length, kinds):
    """A sequence of calls on a buffer."""
    calls, want = [], ""
    shared = env.str("s", 1, DOM if length == 1 else TWO)
    for i in range(length):
        c = first if i == 0 else env.choice("call%d" % i, CALLS)
        k = env.choice("kind%d" % i, [x for x in kinds if c != "raw" or x in RAW])
        k2 = "markup" if k != "markup" else "str"
        v = value(k, shared)
        calls.append([c, v, value(k2, shared)])
        if c == "text":
            want += "<t%d>" % i
        elif c in ("escaped", "escape"):
            want += escaped(k, shared)
        elif c == "attr":
            want += attr("a%d" % i, k, shared)
        elif c == "attrs":
            want += attr("p", k, shared) + attr("q", k2, shared)
        elif c == "two":
            want += "x" + escaped(k, shared) + escaped(k2, shared)
        elif c == "escape2":
            want += escaped(k, shared) + escaped(k2, shared)
        elif c == "raw":
            want += raw(k, shared)
    tag, r = go(env, """
      var b = rt.Buffer(), other = rt.Buffer(), i, c, v, w;
      for (i = 0; i < args.length; i++) {
        c = args[i][0]; v = mk(args[i][1]); w = mk(args[i][2]);
        if (c == 'text') b('<t' + i + '>');
        if (c == 'escaped') b(rt.escape(v));
        if (c == 'escape') b.escape(v);
        if (c == 'escape2') b.escape(v, w);
        if (c == 'attr') b.attr('a' + i, v);
        if (c == 'attrs') b(rt.outputAttrs([['p', v], ['q', w]]));
        if (c == 'two') b('x', rt.escape(v), rt.escape(w));
        if (c == 'raw') b(v);
        other('!');
      }
      c = rt.Buffer();
      c(b, b);
      return [b.toString(), b.toString(), String(rt.escape(b)), other.toString(), c.toString()];
    """, calls)
    env.check(tag == "ok", "the calls succeed")
    env.eq(r, [want, want, want, "!" * length, want + want], "what is output, in order")


def h_attrs(env, length, kinds):
    """Attribute lists."""
    pairs, want = [], ""
    for i in range(length):
        k = env.choice("kind%d" % i, kinds)
        s = env.str("s%d" % i, 1, DOM if length == 1 else TWO)
        pairs.append(["n%d" % i, value(k, s)])
        want += attr("n%d" % i, k, s)
    tag, r = go(env, """
      var list = args.map(function (p) { return [p[0], mk(p[1])]; }), b = rt.Buffer();
      b('<a', rt.outputAttrs(list), '>');
      b('<b', rt.outputAttrs(list), '>');
      b(rt.outputAttrs(undefined), rt.outputAttrs(null), rt.outputAttrs([]));
      return [b.toString(), list.length];
    """, pairs)
    env.check(tag == "ok", "attribute lists are output")
    env.eq(r, ["<a" + want + "><b" + want + ">", length], "the attributes, in order")


NAMES = ["foo", "", "__proto_", "toString", "constructor", "hasOwnProperty", "valueOf", "length", "0", "map", "String", "undefined", "gl", "own", "html", "buffer", "name", "a b"]
BINDERS = """
      var ctx, base = {inherited: 'inherited'}, before, after, bound, name = args[1], k, extra;
      if (args[0] == 'null') ctx = Object.create(null);
      else if (args[0] == 'derived') ctx = Object.create(base);
      else ctx = {};
      if (args[0] == 'shadow') ctx.hasOwnProperty = function () { return args[4]; };
      if (args[0] == 'data') ctx.hasOwnProperty = 'data';
      if (args[2]) ctx[name] = mk(args[3]);
      if (args[0] == 'derived' && args[5]) base[name] = 'of the base';
      global.gl = 'global value';
      extra = Object.keys(ctx).length;
      function show(v) { return v === undefined ? 'undefined' : v === null ? 'null' : typeof v == 'function' ? 'function' : String(v); }
"""


def h_bind(env, kind):
    """bindFromContext: the context's own property, or else the global."""
    name = env.choice("name", NAMES)
    own = env.bool("own")
    truthy = env.bool("truthy")
    base = env.bool("base")
    k = env.choice("kind", ["str", "num0", "false", "null", "undef", "markup"])
    s = env.strs("s", 0, 1, DOM)
    tag, r = go(env, BINDERS + """
      bound = rt.bindFromContext(ctx, name);
      k = rt.bindFromContext(ctx, 'gl');
      return [show(bound), own(bound), show(k), Object.keys(ctx).length - extra];
      function own(v) { return v === global[name]; }
    """, [kind, name, own, value(k, s), truthy, base])
    env.check(tag == "ok", "binding %s in a context is not an error" % name)
    if own and not (kind in ("shadow", "data") and name == "hasOwnProperty"):
        env.eq(r[0], markup(k, s) if k == "markup" else string(k, s), "the own property is preferred: %s" % kind)
    elif not own and not (kind in ("shadow", "data") and name == "hasOwnProperty"):
        env.check(r[1], "without an own property %s is the global" % name)
        if name == "gl":
            env.eq(r[0], "global value", "the global")
    else:
        env.check(not r[1] or own, "the own property hasOwnProperty is preferred")
    env.eq(r[2], "global value" if not (own and name == "gl") else r[0], "other names are not affected")
    env.eq(r[3], 0, "binding leaves the context alone")


def h_add(env, kind):
    """addToContext: never overwrites."""
    name = env.choice("name", NAMES)
    own = env.bool("own")
    truthy = env.bool("truthy")
    base = env.bool("base")
    k = env.choice("kind", ["str", "num0", "false", "null", "undef", "markup"])
    s = env.strs("s", 0, 1, DOM)
    tag, r = go(env, BINDERS + """
      var old = ctx[name], fresh = {}, again = {};
      rt.addToContext(ctx, name, fresh);
      before = ctx[name] === fresh;
      rt.addToContext(ctx, name, again);
      rt.addToContext(ctx, 'gl', again);
      return [before, ctx[name] === old || old !== old, ctx[name] === fresh, ctx[name] === again, ctx.gl === again,
              Object.keys(ctx).length - extra, rt.bindFromContext(ctx, name) === ctx[name]];
    """, [kind, name, own, value(k, s), truthy, base])
    env.check(tag == "ok", "adding %s to a context is not an error" % name)
    own = own or kind in ("shadow", "data") and name == "hasOwnProperty"
    added = 0 if own else 1
    if name != "gl":
        added += 1
    env.eq(r, [not own, own, not own, False, name != "gl", added, True], "%s is added to a %s context unless it is there" % (name, kind))


def h_template(env):
    """A rendered template."""
    s = env.strs("s", 0, 2, DOM)
    tag, r = go(env, """
      var n = 0, ctx = {__main__: function () { var b = rt.Buffer(); n++; b('<', rt.escape(args[0]), '>'); return b; }},
          t = new rt.BoundTemplate(ctx), b = rt.Buffer();
      b('-', rt.escape(t), '-');
      return [t.render(), String(t), String(t.html()), b.toString(), t.templateContext === ctx, typeof t.render(), n];
    """, [s])
    e = "<" + esc(s) + ">"
    env.check(tag == "ok", "templates render")
    env.eq(r, [e, e, e, "-" + e + "-", True, "string", 5], "what the template renders")


def h_foreach(env):
    n = env.choice("n", [0, 1, 2, 3])
    xs = [env.str("x%d" % i, 1, DOM) for i in range(n)]
    tag, r = go(env, """
      var out = [], b = rt.Buffer();
      rt.foreach(args, function (x, i) { out.push([x, i]); b(rt.escape(x)); return true; });
      return [out, b.toString(), args.length];
    """, xs)
    env.check(tag == "ok", "the elements are visited")
    env.eq(r, [[[x, i] for i, x in enumerate(xs)], esc("".join(xs)), n], "every element, in order")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in range(6 if deep else 4):
        out.append(dict(name="escape/%d" % n, fn="h_escape", args=dict(n=n)))
    for k in KINDS:
        out.append(dict(name="kind/" + k, fn="h_kind", args=dict(kind=k, n=2)))
    for c in CALLS:
        out.append(dict(name="sequence1/" + c, fn="h_sequence", args=dict(first=c, length=1, kinds=KINDS)))
        out.append(dict(name="sequence2/" + c, fn="h_sequence", args=dict(first=c, length=2, kinds=["str", "true", "undef", "markup", "buf", "emptybuf", "bufhtml"] + (["html", "num0", "arr"] if deep else []))))
        out.append(dict(name="sequence3/" + c, fn="h_sequence", args=dict(first=c, length=3, kinds=["str", "buf"] + (["null", "markup"] if deep else [])), cost=5))
        if deep:
            out.append(dict(name="sequence4/" + c, fn="h_sequence", args=dict(first=c, length=4, kinds=["str", "buf"]), cost=9))
    for n in range(4):
        out.append(dict(name="attrs/%d" % n, fn="h_attrs", args=dict(length=n, kinds=KINDS if n < 2 else ["str", "true", "false", "null", "undef", "num0", "buf"] if n < 3 else ["str", "true", "null", "markup"])))
    if deep:
        out.append(dict(name="attrs/4", fn="h_attrs", args=dict(length=4, kinds=["str", "true", "null"])))
    for k in ("plain", "null", "derived", "shadow", "data"):
        out.append(dict(name="bind/" + k, fn="h_bind", args=dict(kind=k)))
        out.append(dict(name="add/" + k, fn="h_add", args=dict(kind=k)))
    out.append(dict(name="template", fn="h_template"))
    out.append(dict(name="foreach", fn="h_foreach"))
    return out
