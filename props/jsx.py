"""An interpreter for JavaScript syntax trees (ESTree).

It is loaded like a harness: instrumented in a symbolic run, so that strings that the JavaScript code computes on may be symbolic."""
import re
from symx import jsnode


class Unsupported(Exception):
    """The interpreter has no model of this."""


class Undefined(object):
    def __repr__(self):
        return "undefined"


UNDEF = Undefined()
NOTHING = (None, None)


class JSThrow(Exception):
    def __init__(self, value):
        Exception.__init__(self, "js exception")
        self.value = value


class Obj(object):
    cls = "Object"

    def __init__(self, proto=None):
        self.proto = proto
        self.props = {}
        self.getters = None


class Arr(Obj):
    cls = "Array"

    def __init__(self, proto, items):
        Obj.__init__(self, proto)
        self.items = items


class Func(Obj):
    cls = "Function"

    def __init__(self, proto, call, construct=None, name=""):
        Obj.__init__(self, proto)
        self.call = call            # (this, args) -> value
        self.construct = construct  # args -> value
        self.fname = name


class Regex(Obj):
    cls = "RegExp"

    def __init__(self, proto, pattern, flags):
        Obj.__init__(self, proto)
        self.pattern = pattern
        self.flags = flags


class Scope(object):
    def __init__(self, parent, vars=None):
        self.parent = parent
        self.vars = {} if vars is None else vars
        self.const = ()

    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s
            s = s.parent
        return None


def is_str(v):
    return isinstance(v, str)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def hoist(body, names, funcs):
    """Names declared with var, and function declarations, of a function's body."""
    if body is None:
        return
    if isinstance(body, list):
        for b in body:
            hoist(b, names, funcs)
        return
    t = body.get("type")
    if t == "FunctionDeclaration":
        funcs.append(body)
        return
    if t == "VariableDeclaration":
        if body["kind"] == "var":
            for d in body["declarations"]:
                pattern_names(d["id"], names)
        return
    if t in ("FunctionExpression", "ArrowFunctionExpression", "ClassDeclaration", "ExpressionStatement", "ReturnStatement", "ThrowStatement"):
        return
    for k in ("body", "consequent", "alternate", "init", "left", "block", "handler", "finalizer", "cases"):
        v = body.get(k)
        if isinstance(v, (dict, list)):
            hoist(v, names, funcs)


def pattern_names(p, out):
    t = p["type"]
    if t == "Identifier":
        out.append(p["name"])
    elif t == "ArrayPattern":
        for e in p["elements"]:
            if e is not None:
                pattern_names(e, out)
    elif t == "AssignmentPattern":
        pattern_names(p["left"], out)
    elif t == "RestElement":
        pattern_names(p["argument"], out)
    elif t == "ObjectPattern":
        for e in p["properties"]:
            pattern_names(e["value"] if e["type"] == "Property" else e["argument"], out)
    else:
        raise Unsupported("pattern " + t)


class JS(object):
    def __init__(self):
        self.fuel = 60000
        self.object_proto = Obj(None)
        self.function_proto = Obj(self.object_proto)
        self.array_proto = Obj(self.object_proto)
        self.string_proto = Obj(self.object_proto)
        self.number_proto = Obj(self.object_proto)
        self.boolean_proto = Obj(self.object_proto)
        self.regexp_proto = Obj(self.object_proto)
        self.error_proto = Obj(self.object_proto)
        self.mods = self.array([])
        self.globals = Scope(None)
        self.global_object = Obj(self.object_proto)
        self.library()

    # ---- making values ----

    def array(self, items):
        return Arr(self.array_proto, items)

    def native(self, f, name="", construct=None):
        return Func(self.function_proto, f, construct, name)

    def obj(self, **props):
        o = Obj(self.object_proto)
        o.props.update(props)
        return o

    def error(self, name, msg=""):
        e = Obj(self.error_protos[name])
        e.cls = "Error"
        e.props["message"] = msg
        return JSThrow(e)

    def to_py(self, v):
        if v is UNDEF:
            return None
        if isinstance(v, Arr):
            return [self.to_py(x) for x in v.items]
        if isinstance(v, Func):
            raise Unsupported("a function as result")
        if isinstance(v, Obj):
            return dict([(k, self.to_py(x)) for k, x in v.props.items()])
        return v

    def from_py(self, v):
        if isinstance(v, (list, tuple)):
            return self.array([self.from_py(x) for x in v])
        if isinstance(v, dict):
            o = Obj(self.object_proto)
            for k, x in v.items():
                o.props[k] = self.from_py(x)
            return o
        return v

    # ---- conversions ----

    def truth(self, v):
        if v is UNDEF or v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_str(v):
            return len(v) > 0
        if is_num(v):
            return v == v and v != 0
        return True

    def typeof(self, v):
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "object"
        if isinstance(v, bool):
            return "boolean"
        if is_str(v):
            return "string"
        if is_num(v):
            return "number"
        return "function" if isinstance(v, Func) else "object"

    def to_primitive(self, v, hint="string"):
        if not isinstance(v, Obj):
            return v
        for m in (("toString", "valueOf") if hint == "string" else ("valueOf", "toString")):
            f = self.get(v, m)
            if isinstance(f, Func):
                r = f.call(v, [])
                if not isinstance(r, Obj):
                    return r
        raise self.error("TypeError", "Cannot convert object to primitive value")

    def to_string(self, v):
        if is_str(v):
            return v
        if isinstance(v, Obj):
            return self.to_string(self.to_primitive(v))
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "true" if v else "false"
        if v != v:
            return "NaN"
        if v in (float("inf"), float("-inf")):
            return "Infinity" if v > 0 else "-Infinity"
        if v == int(v):
            return str(int(v))
        return repr(v)

    def to_number(self, v):
        if isinstance(v, bool):
            return 1 if v else 0
        if is_num(v):
            return v
        if v is None:
            return 0
        if v is UNDEF:
            return float("nan")
        if isinstance(v, Obj):
            return self.to_number(self.to_primitive(v, "number"))
        s = v.strip()
        if len(s) == 0:
            return 0
        if re.match(r"[+-]?[0-9]+\Z", s):
            return int(s)
        if re.match(r"[+-]?[0-9]*\.?[0-9]+\Z", s):
            return float(s)
        return float("nan")

    def to_object(self, v, what=""):
        if v is UNDEF or v is None:
            raise self.error("TypeError", "Cannot convert undefined or null to object " + what)
        return v

    def key(self, v):
        return self.to_string(v)

    def loose(self, a, b):
        if a is UNDEF or a is None:
            return b is UNDEF or b is None
        if b is UNDEF or b is None:
            return False
        if self.typeof(a) == self.typeof(b) or isinstance(a, Obj) and isinstance(b, Obj):
            return self.strict(a, b)
        if isinstance(a, Obj):
            return self.loose(self.to_primitive(a, "number"), b)
        if isinstance(b, Obj):
            return self.loose(a, self.to_primitive(b, "number"))
        return self.strict(self.to_number(a), self.to_number(b))

    def strict(self, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj) or a is UNDEF or b is UNDEF or a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if is_str(a) or is_str(b):
            return is_str(a) and is_str(b) and a == b
        return a == b

    # ---- properties ----

    def proto_of(self, v):
        if is_str(v):
            return self.string_proto
        if isinstance(v, bool):
            return self.boolean_proto
        if is_num(v):
            return self.number_proto
        return v

    def index(self, k):
        """The array index that a key stands for, or None."""
        if isinstance(k, bool):
            return None
        if isinstance(k, int):
            return k if k >= 0 else None
        if isinstance(k, float):
            return int(k) if k == k and k >= 0 and k == int(k) else None
        if is_str(k) and re.match(r"(?:0|[1-9][0-9]*)\Z", k):
            return int(k)
        return None

    def own(self, o, k):
        if isinstance(o, Arr):
            n = self.index(k)
            if n is not None:
                return n < len(o.items)
            k = self.key(k)
            return k == "length" or k in o.props
        if is_str(o):
            n = self.index(k)
            if n is not None:
                return n < len(o)
            return self.key(k) == "length"
        if not isinstance(o, Obj):
            return False
        k = self.key(k)
        if k in o.props:
            return True
        if isinstance(o, Func):
            return k == "name" or k == "length"
        return False

    def get(self, o, k):
        if o is UNDEF or o is None:
            raise self.error("TypeError", "Cannot read properties of undefined or null")
        if is_str(o):
            n = self.index(k)
            if n is not None:
                return o[n] if n < len(o) else UNDEF
            if self.key(k) == "length":
                return len(o)
        elif isinstance(o, Arr):
            n = self.index(k)
            if n is not None:
                return o.items[n] if n < len(o.items) else UNDEF
            if self.key(k) == "length":
                return len(o.items)
        k = self.key(k)
        p = self.proto_of(o)
        while p is not None:
            if k in p.props:
                v = p.props[k]
                if p.getters is not None and k in p.getters:
                    return v.call(o, [])
                return v
            if isinstance(p, Func) and k == "name":
                return p.fname
            if k == "__proto__":
                return o.proto if isinstance(o, Obj) else p
            p = p.proto
        return UNDEF

    def set(self, o, k, v):
        if o is UNDEF or o is None:
            raise self.error("TypeError", "Cannot set properties of undefined or null")
        if not isinstance(o, Obj):
            raise self.error("TypeError", "Cannot create property")
        if isinstance(o, Arr):
            n = self.index(k)
            if n is not None:
                while len(o.items) <= n:
                    o.items.append(UNDEF)
                o.items[n] = v
                return
            if self.key(k) == "length":
                n = int(self.to_number(v))
                while len(o.items) > n:
                    o.items.pop()
                while len(o.items) < n:
                    o.items.append(UNDEF)
                return
        k = self.key(k)
        if k == "__proto__":
            raise Unsupported("assignment to __proto__")
        o.props[k] = v

    def keys(self, o):
        if isinstance(o, Arr):
            return [str(i) for i in range(len(o.items))] + list(o.props)
        if is_str(o):
            return [str(i) for i in range(len(o))]
        if not isinstance(o, Obj):
            return []
        ks = list(o.props)
        nums = [k for k in ks if self.index(k) is not None]
        if nums:
            nums.sort(key=int)
            ks = nums + [k for k in ks if self.index(k) is None]
        if isinstance(o, Func):
            ks = [k for k in ks if k != "prototype"]
        return ks

    def call(self, f, this, args):
        if not isinstance(f, Func):
            raise self.error("TypeError", "not a function")
        return f.call(this, args)

    def method(self, o, name, args):
        return self.call(self.get(o, name), o, args)

    def items(self, o):
        """The elements of an array-like."""
        if o is UNDEF or o is None:
            return []
        if isinstance(o, Arr):
            return list(o.items)
        if not isinstance(o, Obj) and not is_str(o):
            return []
        n = self.to_number(self.get(o, "length"))
        if n != n:
            n = 0
        return [self.get(o, i) for i in range(int(n))]

    def iterate(self, o):
        if isinstance(o, Arr):
            return list(o.items)
        if is_str(o):
            return [c for c in o]
        raise self.error("TypeError", "not iterable")

    # ---- functions ----

    def function(self, node, scope, this=None):
        arrow = node["type"] == "ArrowFunctionExpression"
        if node.get("async") or node.get("generator"):
            raise Unsupported("async or generator function")
        isexpr = node["body"]["type"] != "BlockStatement"
        hoisted = node.get("hoisted")
        if hoisted is None:
            hoisted = node["hoisted"] = ([], [])
            if not isexpr:
                hoist(node["body"]["body"], hoisted[0], hoisted[1])
        names, decls = hoisted
        fname = node["id"]["name"] if node.get("id") else ""
        outer = scope
        if fname and node["type"] == "FunctionExpression":
            outer = Scope(scope)

        def invoke(self_, args):
            self.fuel -= 20
            s = Scope(outer)
            if not arrow:
                s.vars["this"] = self_
                s.vars["arguments"] = self.arguments(args)
            for i, p in enumerate(node["params"]):
                if p["type"] == "RestElement":
                    self.bind(p["argument"], self.array(list(args[i:])), s, True)
                else:
                    self.bind(p, args[i] if i < len(args) else UNDEF, s, True)
            for n in names:
                if n not in s.vars:
                    s.vars[n] = UNDEF
            for d in decls:
                s.vars[d["id"]["name"]] = self.function(d, s)
            if isexpr:
                return self.ev(node["body"], s)
            c = self.block(node["body"]["body"], s)
            return c[1] if c is not None and c[0] == "return" else UNDEF

        def construct(args):
            p = f.props.get("prototype")
            o = Obj(p if isinstance(p, Obj) else self.object_proto)
            r = invoke(o, args)
            return r if isinstance(r, Obj) else o
        f = Func(self.function_proto, invoke, None if arrow else construct, fname)
        if not arrow:
            proto = Obj(self.object_proto)
            f.props["prototype"] = proto
        if outer is not scope:
            outer.vars[fname] = f
        return f

    def arguments(self, args):
        a = Arr(self.object_proto, list(args))
        a.cls = "Arguments"
        return a

    def bind(self, p, v, s, declare):
        t = p["type"]
        if t == "Identifier":
            if declare:
                s.vars[p["name"]] = v
            else:
                self.assign_name(p["name"], v, s)
        elif t == "AssignmentPattern":
            self.bind(p["left"], self.ev(p["right"], s) if v is UNDEF else v, s, declare)
        elif t == "ArrayPattern":
            xs = self.iterate(v)
            for i, e in enumerate(p["elements"]):
                if e is None:
                    continue
                if e["type"] == "RestElement":
                    self.bind(e["argument"], self.array(xs[i:]), s, declare)
                else:
                    self.bind(e, xs[i] if i < len(xs) else UNDEF, s, declare)
        elif t == "ObjectPattern":
            for e in p["properties"]:
                if e["type"] != "Property":
                    raise Unsupported("rest of an object")
                k = self.ev(e["key"], s) if e["computed"] else self.prop_name(e["key"])
                self.bind(e["value"], self.get(v, k), s, declare)
        elif t == "MemberExpression":
            o = self.ev(p["object"], s)
            self.set(o, self.member_key(p, s), v)
        else:
            raise Unsupported("pattern " + t)

    def assign_name(self, name, v, s):
        w = s.find(name)
        if w is None:
            if name in self.global_object.props:
                self.global_object.props[name] = v
                return
            raise self.error("ReferenceError", name)
        if name in w.const:
            raise self.error("TypeError", "Assignment to constant variable.")
        w.vars[name] = v

    def prop_name(self, k):
        if k["type"] == "Identifier":
            return k["name"]
        return self.key(k["value"])

    def member_key(self, n, s):
        if not n["computed"]:
            return n["property"]["name"]
        k = self.ev(n["property"], s)
        return self.to_primitive(k) if isinstance(k, Obj) else k

    # ---- statements: None, ("return", v), ("break", label) or ("continue", label) ----

    def run(self, src):
        tag, tree = jsnode.parse(src)
        if tag == "error":
            raise self.error("SyntaxError", tree)
        names, decls = [], []
        hoist(tree["body"], names, decls)
        s = Scope(self.globals)
        for n in names:
            s.vars[n] = UNDEF
        for d in decls:
            s.vars[d["id"]["name"]] = self.function(d, s)
        s.vars["this"] = UNDEF
        c = self.block(tree["body"], s)
        return c

    def value(self, src):
        """The value of an expression."""
        tag, tree = jsnode.parse("(" + src + ")")
        if tag == "error":
            raise Unsupported("scenario: " + tree)
        s = Scope(self.globals)
        s.vars["this"] = UNDEF
        return self.ev(tree["body"][0]["expression"], s)

    def block(self, body, s):
        for n in body:
            c = self.st(n, s)
            if c is not None:
                return c
        return None

    def inner(self, body, s):
        """A block of its own scope."""
        lexical = [n for n in body if n["type"] == "VariableDeclaration" and n["kind"] != "var"]
        if lexical:
            s = Scope(s)
        return self.block(body, s)

    def st(self, n, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("too many steps")
        f = ST.get(n["type"])
        if f is None:
            raise Unsupported(n["type"])
        return f(self, n, s)

    def st_ExpressionStatement(self, n, s):
        self.ev(n["expression"], s)
        return None

    def st_ReturnStatement(self, n, s):
        return ("return", self.ev(n["argument"], s) if n["argument"] is not None else UNDEF)

    def st_VariableDeclaration(self, n, s):
        for d in n["declarations"]:
            if n["kind"] == "var":
                if d["init"] is not None:
                    self.bind(d["id"], self.ev(d["init"], s), s, False)
            else:
                self.bind(d["id"], self.ev(d["init"], s) if d["init"] is not None else UNDEF, s, True)
                if n["kind"] == "const":
                    names = []
                    pattern_names(d["id"], names)
                    s.const = tuple(s.const) + tuple(names)
        return None

    def st_IfStatement(self, n, s):
        if self.truth(self.ev(n["test"], s)):
            return self.st(n["consequent"], s)
        if n["alternate"] is not None:
            return self.st(n["alternate"], s)
        return None

    def st_BlockStatement(self, n, s):
        return self.inner(n["body"], s)

    def st_FunctionDeclaration(self, n, s):
        return None

    def st_ForStatement(self, n, s):
        return self.st_for(n, s, None)

    def st_WhileStatement(self, n, s):
        return self.st_loop(n, s, None)

    def st_LabeledStatement(self, n, s):
        b, label = n["body"], n["label"]["name"]
        if b["type"] == "ForStatement":
            c = self.st_for(b, s, label)
        elif b["type"] in ("WhileStatement", "DoWhileStatement", "ForInStatement", "ForOfStatement"):
            c = self.st_loop(b, s, label)
        else:
            c = self.st(b, s)
        if c is not None and c[0] == "break" and c[1] == label:
            return None
        return c

    def st_BreakStatement(self, n, s):
        t = n["type"]
        return ("break" if t == "BreakStatement" else "continue", n["label"]["name"] if n["label"] else None)

    def st_ThrowStatement(self, n, s):
        raise JSThrow(self.ev(n["argument"], s))

    def st_TryStatement(self, n, s):
        return self.st_try(n, s)

    def st_SwitchStatement(self, n, s):
        v = self.ev(n["discriminant"], s)
        s = Scope(s)
        start = None
        for i, c in enumerate(n["cases"]):
            if c["test"] is not None and self.strict(v, self.ev(c["test"], s)):
                start = i
                break
        if start is None:
            for i, c in enumerate(n["cases"]):
                if c["test"] is None:
                    start = i
            if start is None:
                return None
        for c in n["cases"][start:]:
            r = self.block(c["consequent"], s)
            if r is not None:
                if r[0] == "break" and r[1] is None:
                    return None
                return r
        return None

    def after(self, c, label):
        """What a completion of a loop's body means: (leave, completion)."""
        if c is None:
            return False, None
        if c[0] == "break" and (c[1] is None or c[1] == label):
            return True, None
        if c[0] == "continue" and (c[1] is None or c[1] == label):
            return False, None
        return True, c

    def st_for(self, n, s, label):
        i = n["init"]
        s = Scope(s)
        let = []
        if i is not None:
            if i["type"] == "VariableDeclaration":
                self.st(i, s)
                if i["kind"] != "var":
                    for d in i["declarations"]:
                        pattern_names(d["id"], let)
            else:
                self.ev(i, s)
        while True:
            if n["test"] is not None and not self.truth(self.ev(n["test"], s)):
                return None
            leave, c = self.after(self.st(n["body"], s), label)
            if leave:
                return c
            if let:
                w = Scope(s.parent, dict(s.vars))
                w.const = s.const
                s = w
            if n["update"] is not None:
                self.ev(n["update"], s)

    def st_loop(self, n, s, label):
        t = n["type"]
        if t == "WhileStatement":
            while self.truth(self.ev(n["test"], s)):
                leave, c = self.after(self.st(n["body"], s), label)
                if leave:
                    return c
            return None
        if t == "DoWhileStatement":
            while True:
                leave, c = self.after(self.st(n["body"], s), label)
                if leave:
                    return c
                if not self.truth(self.ev(n["test"], s)):
                    return None
        v = self.ev(n["right"], s)
        if t == "ForOfStatement":
            xs = self.iterate(v)
        else:
            xs = []
            o = v
            while isinstance(o, (Obj, str)):
                if o in (self.object_proto, self.array_proto, self.function_proto):
                    break
                for k in self.keys(o):
                    if k not in xs:
                        xs.append(k)
                o = o.proto if isinstance(o, Obj) else None
        for x in xs:
            w = Scope(s)
            l = n["left"]
            if l["type"] == "VariableDeclaration":
                self.bind(l["declarations"][0]["id"], x, w, l["kind"] != "var")
            else:
                self.bind(l, x, w, False)
            leave, c = self.after(self.st(n["body"], w), label)
            if leave:
                return c
        return None

    def st_try(self, n, s):
        c = None
        pending = None
        try:
            c = self.inner(n["block"]["body"], s)
        except JSThrow as e:
            if n["handler"] is None:
                pending = e
            else:
                w = Scope(s)
                if n["handler"]["param"] is not None:
                    self.bind(n["handler"]["param"], e.value, w, True)
                try:
                    c = self.inner(n["handler"]["body"]["body"], w)
                except JSThrow as e2:
                    pending = e2
        if n["finalizer"] is not None:
            d = self.inner(n["finalizer"]["body"], s)
            if d is not None:
                return d
        if pending is not None:
            raise pending
        return c

    # ---- expressions ----

    def args(self, nodes, s):
        out = []
        for a in nodes:
            if a["type"] == "SpreadElement":
                out.extend(self.iterate(self.ev(a["argument"], s)))
            else:
                out.append(self.ev(a, s))
        return out

    def ev(self, n, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("too many steps")
        f = EV.get(n["type"])
        if f is None:
            raise Unsupported(n["type"])
        return f(self, n, s)

    def ev_Identifier(self, n, s):
        return self.name(n["name"], s)

    def ev_Literal(self, n, s):
        if n.get("regex"):
            return Regex(self.regexp_proto, n["regex"]["pattern"], n["regex"]["flags"])
        return n["value"]

    def ev_MemberExpression(self, n, s):
        o = self.ev(n["object"], s)
        if n.get("optional") and (o is None or o is UNDEF):
            return UNDEF
        if not n["computed"]:
            return self.get(o, n["property"]["name"])
        return self.get(o, self.member_key(n, s))

    def ev_CallExpression(self, n, s):
        return self.ev_call(n, s)

    def ev_FunctionExpression(self, n, s):
        return self.function(n, s)

    def ev_BinaryExpression(self, n, s):
        return self.binary(n["operator"], self.ev(n["left"], s), self.ev(n["right"], s))

    def ev_LogicalExpression(self, n, s):
        l = self.ev(n["left"], s)
        op = n["operator"]
        if op == "&&":
            return self.ev(n["right"], s) if self.truth(l) else l
        if op == "||":
            return l if self.truth(l) else self.ev(n["right"], s)
        return self.ev(n["right"], s) if l is None or l is UNDEF else l

    def ev_ConditionalExpression(self, n, s):
        return self.ev(n["consequent"] if self.truth(self.ev(n["test"], s)) else n["alternate"], s)

    def ev_AssignmentExpression(self, n, s):
        return self.ev_assign(n, s)

    def ev_UnaryExpression(self, n, s):
        return self.ev_unary(n, s)

    def ev_ThisExpression(self, n, s):
        w = s.find("this")
        return w.vars["this"] if w is not None else UNDEF

    def ev_ArrayExpression(self, n, s):
        return self.array(self.args(n["elements"], s))

    def ev_ObjectExpression(self, n, s):
        return self.ev_object(n, s)

    def ev_NewExpression(self, n, s):
        f = self.ev(n["callee"], s)
        a = self.args(n["arguments"], s)
        if not isinstance(f, Func) or f.construct is None:
            raise self.error("TypeError", "not a constructor")
        return f.construct(a)

    def ev_UpdateExpression(self, n, s):
        old = self.to_number(self.ev(n["argument"], s))
        new = old + 1 if n["operator"] == "++" else old - 1
        self.bind(n["argument"], new, s, False)
        return new if n["prefix"] else old

    def ev_SequenceExpression(self, n, s):
        v = UNDEF
        for e in n["expressions"]:
            v = self.ev(e, s)
        return v

    def ev_TemplateLiteral(self, n, s):
        out = ""
        for i, q in enumerate(n["quasis"]):
            out = out + q["value"]["cooked"]
            if i < len(n["expressions"]):
                out = out + self.to_string(self.ev(n["expressions"][i], s))
        return out

    def ev_ParenthesizedExpression(self, n, s):
        return self.ev(n["expression"], s)

    def name(self, name, s):
        w = s.find(name)
        if w is not None:
            return w.vars[name]
        if name in self.global_object.props:
            return self.global_object.props[name]
        raise self.error("ReferenceError", name)

    def ev_call(self, n, s):
        c = n["callee"]
        if c["type"] == "MemberExpression":
            o = self.ev(c["object"], s)
            if c.get("optional") and (o is None or o is UNDEF):
                return UNDEF
            f = self.get(o, self.member_key(c, s))
            this = o
        else:
            f = self.ev(c, s)
            this = UNDEF
        if n.get("optional") and (f is None or f is UNDEF):
            return UNDEF
        return self.call(f, this, self.args(n["arguments"], s))

    def ev_assign(self, n, s):
        op, l = n["operator"], n["left"]
        if op == "=":
            if l["type"] == "MemberExpression":
                o = self.ev(l["object"], s)
                k = self.member_key(l, s)
                v = self.ev(n["right"], s)
                self.set(o, k, v)
                return v
            v = self.ev(n["right"], s)
            self.bind(l, v, s, False)
            return v
        if l["type"] == "MemberExpression":
            o = self.ev(l["object"], s)
            k = self.member_key(l, s)
            old = self.get(o, k)
        else:
            old = self.name(l["name"], s)
        if op in ("||=", "&&=", "??="):
            keep = self.truth(old) if op == "||=" else not self.truth(old) if op == "&&=" else not (old is None or old is UNDEF)
            if keep:
                return old
            v = self.ev(n["right"], s)
        else:
            v = self.binary(op[:-1], old, self.ev(n["right"], s))
        if l["type"] == "MemberExpression":
            self.set(o, k, v)
        else:
            self.assign_name(l["name"], v, s)
        return v

    def ev_unary(self, n, s):
        op, a = n["operator"], n["argument"]
        if op == "typeof":
            if a["type"] == "Identifier" and s.find(a["name"]) is None and a["name"] not in self.global_object.props:
                return "undefined"
            return self.typeof(self.ev(a, s))
        if op == "delete":
            if a["type"] != "MemberExpression":
                raise Unsupported("delete")
            o = self.ev(a["object"], s)
            k = self.key(self.member_key(a, s))
            if isinstance(o, Arr) and self.index(k) is not None:
                raise Unsupported("delete of an element")
            o.props.pop(k, None)
            return True
        v = self.ev(a, s)
        if op == "!":
            return not self.truth(v)
        if op == "-":
            return -self.to_number(v)
        if op == "+":
            return self.to_number(v)
        if op == "void":
            return UNDEF
        raise Unsupported("operator " + op)

    def ev_object(self, n, s):
        o = Obj(self.object_proto)
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                v = self.ev(p["argument"], s)
                for k in self.keys(v):
                    o.props[k] = self.get(v, k)
                continue
            k = self.key(self.ev(p["key"], s)) if p["computed"] else self.prop_name(p["key"])
            if k == "__proto__" and not p["computed"]:
                v = self.ev(p["value"], s)
                if v is None or isinstance(v, Obj):
                    o.proto = v
                continue
            o.props[k] = self.ev(p["value"], s)
            if p["kind"] == "get":
                o.getters = (o.getters or ()) + (k,)
            elif p["kind"] == "set":
                raise Unsupported("setter")
        return o

    def binary(self, op, a, b):
        if op == "+":
            a = self.to_primitive(a, "default" if not isinstance(a, Obj) else "number")
            b = self.to_primitive(b, "number")
            if is_str(a) or is_str(b):
                return self.to_string(a) + self.to_string(b)
            return self.to_number(a) + self.to_number(b)
        if op == "===":
            return self.strict(a, b)
        if op == "!==":
            return not self.strict(a, b)
        if op == "==":
            return self.loose(a, b)
        if op == "!=":
            return not self.loose(a, b)
        if op == "instanceof":
            if not isinstance(b, Func):
                raise self.error("TypeError", "not callable")
            p = b.props.get("prototype")
            o = a.proto if isinstance(a, Obj) else None
            while o is not None:
                if o is p:
                    return True
                o = o.proto
            return False
        if op == "in":
            if not isinstance(b, Obj):
                raise self.error("TypeError", "in")
            o = b
            while o is not None:
                if self.own(o, a):
                    return True
                o = o.proto
            return False
        if op in ("<", ">", "<=", ">="):
            a, b = self.to_primitive(a, "number"), self.to_primitive(b, "number")
            if not (is_str(a) and is_str(b)):
                a, b = self.to_number(a), self.to_number(b)
            if op == "<":
                return a < b
            if op == ">":
                return a > b
            return a <= b if op == "<=" else a >= b
        a, b = self.to_number(a), self.to_number(b)
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op in ("/", "%"):
            if b == 0 or a != a or b != b:
                if op == "/" and a == a and b == b and a != 0:
                    return float("inf") if a > 0 else float("-inf")
                return float("nan")
            if op == "/":
                r = a / b
                return int(r) if r == int(r) else r
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if a != a:
            a = 0
        if b != b:
            b = 0
        a, b = int(a), int(b)
        if op == "|":
            r = a | b
        elif op == "&":
            r = a & b
        elif op == "^":
            r = a ^ b
        elif op == "<<":
            r = a << (b & 31)
        elif op == ">>":
            r = a >> (b & 31)
        else:
            raise Unsupported("operator " + op)
        r = r & 0xffffffff
        return r - 0x100000000 if r >= 0x80000000 else r

    # ---- the standard library ----

    def library(self):
        g = self.global_object
        put = g.props
        put["undefined"] = UNDEF
        put["NaN"] = float("nan")
        put["Infinity"] = float("inf")
        put["global"] = g
        put["globalThis"] = g
        put["mods"] = self.mods

        def define(this, a):
            self.mods.items.append(self.array([a[0], a[1]]))
            return UNDEF
        put["define"] = self.native(define, "define")

        def methods(o, table):
            for k, f in table.items():
                o.props[k] = self.native(f, k)
        a0 = lambda a, i=0: a[i] if i < len(a) else UNDEF

        def ctor(name, call, construct, proto):
            f = self.native(call, name, construct)
            f.props["prototype"] = proto
            proto.props["constructor"] = f
            put[name] = f
            return f
        # Object
        ob = ctor("Object", lambda t, a: self.to_obj(a0(a)), lambda a: self.to_obj(a0(a)), self.object_proto)
        methods(self.object_proto, {
            "hasOwnProperty": lambda t, a: self.own(t, a0(a)),
            "toString": lambda t, a: "[object " + (t.cls if isinstance(t, Obj) else "Undefined" if t is UNDEF else "Null" if t is None else
                                                     {"string": "String", "number": "Number", "boolean": "Boolean"}[self.typeof(t)]) + "]",
            "valueOf": lambda t, a: t,
            "isPrototypeOf": lambda t, a: self.above(t, a0(a)),
        })

        def assign(t, a):
            for o in a[1:]:
                if o is not UNDEF and o is not None:
                    for k in self.keys(o):
                        self.set(a[0], k, self.get(o, k))
            return a[0]

        def create(t, a):
            o = Obj(a0(a))
            if a0(a, 1) is not UNDEF:
                for k in self.keys(a[1]):
                    o.props[k] = self.get(self.get(a[1], k), "value")
            return o
        methods(ob, {
            "keys": lambda t, a: self.array(self.keys(self.to_object(a0(a)))),
            "values": lambda t, a: self.array([self.get(a[0], k) for k in self.keys(self.to_object(a0(a)))]),
            "entries": lambda t, a: self.array([self.array([k, self.get(a[0], k)]) for k in self.keys(self.to_object(a0(a)))]),
            "create": create, "assign": assign, "freeze": lambda t, a: a0(a),
            "getPrototypeOf": lambda t, a: self.proto_of(a0(a)).proto if isinstance(a0(a), Obj) else self.proto_of(a0(a)),
            "hasOwn": lambda t, a: self.own(self.to_object(a0(a)), a0(a, 1)),
        })
        # Function
        ctor("Function", self.nope("Function"), self.nope1("Function"), self.function_proto)
        methods(self.function_proto, {
            "call": lambda t, a: self.call(t, a0(a), list(a[1:])),
            "apply": lambda t, a: self.call(t, a0(a), self.items(a0(a, 1))),
            "bind": self.fn_bind,
            "toString": self.nope("text of a function"),
        })
        # String
        st = ctor("String", lambda t, a: self.to_string(a[0]) if a else "", self.nope1("new String"), self.string_proto)
        methods(st, {"fromCharCode": lambda t, a: "".join([chr(int(self.to_number(x))) for x in a])})

        def s_(t):
            return self.to_string(self.to_object(t))

        def rng(t, a, neg):
            n = len(t)
            i, j = self.int_(a0(a), 0), self.int_(a0(a, 1), n)
            if neg:
                i = max(0, n + i) if i < 0 else min(i, n)
                j = max(0, n + j) if j < 0 else min(j, n)
            else:
                i, j = min(max(i, 0), n), min(max(j, 0), n)
                if i > j:
                    i, j = j, i
            return t[i:j] if i < j else t[:0]
        methods(self.string_proto, {
            "toString": lambda t, a: t, "valueOf": lambda t, a: t,
            "charAt": lambda t, a: s_(t)[self.int_(a0(a), 0)] if 0 <= self.int_(a0(a), 0) < len(s_(t)) else "",
            "charCodeAt": lambda t, a: ord(s_(t)[self.int_(a0(a), 0)]) if 0 <= self.int_(a0(a), 0) < len(s_(t)) else float("nan"),
            "indexOf": lambda t, a: s_(t).find(self.to_string(a0(a)), self.int_(a0(a, 1), 0)),
            "lastIndexOf": lambda t, a: s_(t).rfind(self.to_string(a0(a))),
            "includes": lambda t, a: self.to_string(a0(a)) in s_(t),
            "startsWith": lambda t, a: s_(t).startswith(self.to_string(a0(a))),
            "endsWith": lambda t, a: s_(t).endswith(self.to_string(a0(a))),
            "slice": lambda t, a: rng(s_(t), a, True), "substring": lambda t, a: rng(s_(t), a, False),
            "substr": lambda t, a: s_(t)[self.int_(a0(a), 0):][:self.int_(a0(a, 1), len(s_(t)))],
            "concat": lambda t, a: s_(t) + "".join([self.to_string(x) for x in a]),
            "split": self.str_split, "replace": self.str_replace, "replaceAll": self.str_replace_all,
            "toUpperCase": lambda t, a: s_(t).upper(), "toLowerCase": lambda t, a: s_(t).lower(),
            "trim": lambda t, a: s_(t).strip(),
            "match": self.nope("match"),
        })
        methods(self.regexp_proto, {"test": lambda t, a: self.re(t).search(self.to_string(a0(a))) is not None, "exec": self.nope("exec")})
        # Number, Boolean
        ctor("Number", lambda t, a: self.to_number(a[0]) if a else 0, self.nope1("new Number"), self.number_proto)
        ctor("Boolean", lambda t, a: self.truth(a0(a)), self.nope1("new Boolean"), self.boolean_proto)
        methods(self.number_proto, {"toString": lambda t, a: self.to_string(t), "valueOf": lambda t, a: t})
        methods(self.boolean_proto, {"toString": lambda t, a: self.to_string(t), "valueOf": lambda t, a: t})
        put["isNaN"] = self.native(lambda t, a: self.to_number(a0(a)) != self.to_number(a0(a)))
        # Array
        ar = ctor("Array", lambda t, a: self.new_array(a), lambda a: self.new_array(a), self.array_proto)
        methods(ar, {"isArray": lambda t, a: isinstance(a0(a), Arr) and a0(a).cls == "Array",
                     "from": lambda t, a: self.array([x if a0(a, 1) is UNDEF else self.call(a[1], UNDEF, [x, i])
                                                      for i, x in enumerate(self.iterate(a0(a)) if isinstance(a0(a), (Arr, str)) else self.items(a0(a)))]),
                     "of": lambda t, a: self.array(list(a))})

        def each(t, a, f):
            for i, x in enumerate(self.items(self.to_object(t))):
                r = f(x, self.call(a0(a), a0(a, 1), [x, i, t]), i)
                if r is not None:
                    return r
            return None

        def a_map(t, a):
            out = []
            each(t, a, lambda x, r, i: out.append(r))
            return self.array(out)

        def a_for(t, a):
            if not isinstance(a0(a), Func):
                raise self.error("TypeError", "not a function")
            each(t, a, lambda x, r, i: None)
            return UNDEF

        def a_filter(t, a):
            out = []
            each(t, a, lambda x, r, i: out.append(x) if self.truth(r) else None)
            return self.array(out)

        def a_concat(t, a):
            out = self.items(t)
            for x in a:
                if isinstance(x, Arr) and x.cls == "Array":
                    out.extend(x.items)
                else:
                    out.append(x)
            return self.array(out)

        def a_push(t, a):
            if not isinstance(t, Arr):
                raise Unsupported("push on an object")
            t.items.extend(a)
            return len(t.items)

        def a_join(t, a):
            sep = "," if a0(a) is UNDEF else self.to_string(a[0])
            return sep.join(["" if x is UNDEF or x is None else self.to_string(x) for x in self.items(t)])

        def a_slice(t, a):
            xs = self.items(t)
            n = len(xs)
            i, j = self.int_(a0(a), 0), self.int_(a0(a, 1), n)
            i = max(0, n + i) if i < 0 else min(i, n)
            j = max(0, n + j) if j < 0 else min(j, n)
            return self.array(xs[i:j])

        def a_splice(t, a):
            n = len(t.items)
            i = self.int_(a0(a), 0)
            i = max(0, n + i) if i < 0 else min(i, n)
            d = max(0, min(self.int_(a0(a, 1), n - i), n - i)) if len(a) > 1 else n - i
            out = t.items[i:i + d]
            t.items[i:i + d] = list(a[2:])
            return self.array(out)

        def a_reduce(t, a):
            xs = self.items(t)
            i = 0
            if len(a) > 1:
                acc = a[1]
            elif xs:
                acc = xs[0]
                i = 1
            else:
                raise self.error("TypeError", "Reduce of empty array with no initial value")
            while i < len(xs):
                acc = self.call(a[0], UNDEF, [acc, xs[i], i, t])
                i += 1
            return acc

        def a_index(t, a):
            for i, x in enumerate(self.items(t)):
                if self.strict(x, a0(a)):
                    return i
            return -1
        methods(self.array_proto, {
            "map": a_map, "forEach": a_for, "filter": a_filter, "concat": a_concat, "push": a_push, "join": a_join, "slice": a_slice,
            "splice": a_splice, "reduce": a_reduce, "indexOf": a_index, "toString": lambda t, a: a_join(t, []),
            "includes": lambda t, a: a_index(t, a) >= 0,
            "pop": lambda t, a: t.items.pop() if t.items else UNDEF, "shift": lambda t, a: t.items.pop(0) if t.items else UNDEF,
            "unshift": lambda t, a: (t.items.__setitem__(slice(0, 0), list(a)), len(t.items))[1],
            "reverse": lambda t, a: (t.items.reverse(), t)[1],
            "some": lambda t, a: each(t, a, lambda x, r, i: True if self.truth(r) else None) is True,
            "every": lambda t, a: each(t, a, lambda x, r, i: False if not self.truth(r) else None) is None,
        })
        # Error
        self.error_protos = {"Error": self.error_proto}
        for name in ("Error", "TypeError", "ReferenceError", "RangeError", "SyntaxError"):
            p = self.error_proto if name == "Error" else Obj(self.error_proto)
            self.error_protos[name] = p
            p.props["name"] = name
            p.props["message"] = ""

            def make(a, p=p):
                e = Obj(p)
                e.cls = "Error"
                if a0(a) is not UNDEF:
                    e.props["message"] = self.to_string(a[0])
                return e
            ctor(name, lambda t, a, make=make: make(a), make, p)
        methods(self.error_proto, {"toString": lambda t, a: self.to_string(self.get(t, "name")) + ": " + self.to_string(self.get(t, "message"))})
        m = Obj(self.object_proto)
        methods(m, {"max": lambda t, a: max([self.to_number(x) for x in a]), "min": lambda t, a: min([self.to_number(x) for x in a]),
                    "floor": lambda t, a: int(self.to_number(a0(a)) // 1)})
        put["Math"] = m

    def nope(self, what):
        def f(t, a):
            raise Unsupported(what)
        return f

    def nope1(self, what):
        def f(a):
            raise Unsupported(what)
        return f

    def to_obj(self, v):
        if v is UNDEF or v is None:
            return Obj(self.object_proto)
        if not isinstance(v, Obj):
            raise Unsupported("object of a primitive")
        return v

    def above(self, t, o):
        o = o.proto if isinstance(o, Obj) else None
        while o is not None:
            if o is t:
                return True
            o = o.proto
        return False

    def int_(self, v, default):
        if v is UNDEF:
            return default
        n = self.to_number(v)
        if n != n:
            return 0
        if n in (float("inf"), float("-inf")):
            return 1 << 30 if n > 0 else -(1 << 30)
        return int(n)

    def new_array(self, a):
        if len(a) == 1 and is_num(a[0]):
            return self.array([UNDEF] * int(a[0]))
        return self.array(list(a))

    def fn_bind(self, t, a):
        if not isinstance(t, Func):
            raise self.error("TypeError", "bind")
        this = a[0] if a else UNDEF
        pre = list(a[1:])
        return self.native(lambda _, b: t.call(this, pre + list(b)), "bound " + t.fname)

    # ---- regular expressions ----

    def re(self, r):
        p = r.pattern
        flags = 0
        for f in r.flags:
            if f == "i":
                flags |= re.I
            elif f == "m":
                flags |= re.M
            elif f not in "gu":
                raise Unsupported("flag " + f)
        if re.search(r"\\[pPkuxcdDwWsSbB]|\(\?<|\$|\^", p):
            raise Unsupported("regular expression " + p)
        # within a class Python warns of some characters that JavaScript does not mind
        return re.compile(p.replace("[[", "[\\["), flags)

    def str_replace(self, t, a):
        s = self.to_string(self.to_object(t))
        pat, rep = a[0], a[1] if len(a) > 1 else UNDEF
        if isinstance(pat, Regex):
            rx = self.re(pat)
            count = 0 if "g" in pat.flags else 1
        else:
            rx = re.compile(re.escape(self.to_string(pat)))
            count = 1
        if isinstance(rep, Func):
            def f(m):
                groups = [UNDEF if g is None else g for g in m.groups()]
                return self.to_string(self.call(rep, UNDEF, [m.group(0)] + groups + [m.start(), s]))
        else:
            rep = self.to_string(rep)

            def f(m):
                return self.expand(rep, m, s)
        return rx.sub(f, s, count=count)

    def str_replace_all(self, t, a):
        if isinstance(a[0], Regex):
            return self.str_replace(t, a)
        s = self.to_string(self.to_object(t))
        rep = a[1]
        rx = re.compile(re.escape(self.to_string(a[0])))
        if isinstance(rep, Func):
            return rx.sub(lambda m: self.to_string(self.call(rep, UNDEF, [m.group(0), m.start(), s])), s)
        rep = self.to_string(rep)
        return rx.sub(lambda m: self.expand(rep, m, s), s)

    def expand(self, rep, m, s):
        """The replacement patterns $$, $&, $1, $` and $'."""
        out = ""
        i = 0
        while i < len(rep):
            c = rep[i]
            if c == "$" and i + 1 < len(rep):
                d = rep[i + 1]
                if d == "$":
                    out, i = out + "$", i + 2
                    continue
                if d == "&":
                    out, i = out + m.group(0), i + 2
                    continue
                if d == "`":
                    out, i = out + s[:m.start()], i + 2
                    continue
                if d == "'":
                    out, i = out + s[m.end():], i + 2
                    continue
                if d in "123456789" and int(d) <= len(m.groups()):
                    out, i = out + (m.group(int(d)) or ""), i + 2
                    continue
            out += c
            i += 1
        return out

    def str_split(self, t, a):
        s = self.to_string(self.to_object(t))
        if not a or a[0] is UNDEF:
            return self.array([s])
        if isinstance(a[0], Regex):
            raise Unsupported("split by a regular expression")
        sep = self.to_string(a[0])
        if len(sep) == 0:
            return self.array([c for c in s])
        return self.array(s.split(sep))


ST = {"ExpressionStatement": JS.st_ExpressionStatement, "ReturnStatement": JS.st_ReturnStatement, "VariableDeclaration": JS.st_VariableDeclaration, "IfStatement": JS.st_IfStatement, "BlockStatement": JS.st_BlockStatement, "FunctionDeclaration": JS.st_FunctionDeclaration, "EmptyStatement": JS.st_FunctionDeclaration, "DebuggerStatement": JS.st_FunctionDeclaration, "ForStatement": JS.st_ForStatement, "WhileStatement": JS.st_WhileStatement, "DoWhileStatement": JS.st_WhileStatement, "ForInStatement": JS.st_WhileStatement, "ForOfStatement": JS.st_WhileStatement, "LabeledStatement": JS.st_LabeledStatement, "BreakStatement": JS.st_BreakStatement, "ContinueStatement": JS.st_BreakStatement, "ThrowStatement": JS.st_ThrowStatement, "TryStatement": JS.st_TryStatement, "SwitchStatement": JS.st_SwitchStatement}
EV = {"Identifier": JS.ev_Identifier, "Literal": JS.ev_Literal, "MemberExpression": JS.ev_MemberExpression, "CallExpression": JS.ev_CallExpression, "FunctionExpression": JS.ev_FunctionExpression, "ArrowFunctionExpression": JS.ev_FunctionExpression, "BinaryExpression": JS.ev_BinaryExpression, "LogicalExpression": JS.ev_LogicalExpression, "ConditionalExpression": JS.ev_ConditionalExpression, "AssignmentExpression": JS.ev_AssignmentExpression, "UnaryExpression": JS.ev_UnaryExpression, "ThisExpression": JS.ev_ThisExpression, "ArrayExpression": JS.ev_ArrayExpression, "ObjectExpression": JS.ev_ObjectExpression, "NewExpression": JS.ev_NewExpression, "UpdateExpression": JS.ev_UpdateExpression, "SequenceExpression": JS.ev_SequenceExpression, "TemplateLiteral": JS.ev_TemplateLiteral, "ParenthesizedExpression": JS.ev_ParenthesizedExpression, "ChainExpression": JS.ev_ParenthesizedExpression}


def run(env, sources, scenario, args):
    """("ok", result) or ("throw", name of the error): by the interpreter in a symbolic run, by node in a replay."""
    if env.symbolic:
        js = JS()
        try:
            for s in sources:
                js.run(s)
            return "ok", js.to_py(js.call(js.value(scenario), UNDEF, [js.from_py(a) for a in args]))
        except JSThrow as e:
            return "throw", js.to_string(js.get(e.value, "name")) if isinstance(e.value, Obj) else js.to_string(e.value)
    r = jsnode.run(sources, scenario, args)
    if "error" in r:
        return "throw", r["error"]
    return "ok", r["result"]
