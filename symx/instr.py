"""Source instrumentation and a private importer.

Modules of the code under test (and the pure Python library code its semantics
run through) are loaded from their *current source* into private module objects
in which every call, `in`, `%`, f-string and subscript goes through a small
dispatcher that understands symbolic strings."""
import ast
import builtins
import importlib.util
import io as _io
import os
import sys
import sys as _sys
import types

from . import core, sstr, sre
from .core import EngineError, PathAbort
from .sstr import (SStr, SNum, isinstance_sym, is_sym, has_sym, realize, deep_realize, chars, mk,
                   to_str, join as s_join, mod_format, fstring, do_format, ch_in, ch_eq, engine)
from .charset import CS

rstr = str
ENGINE = os.path.dirname(os.path.abspath(__file__)) + "/"

NOCALL = {"super", "locals", "globals", "vars", "dir", "eval"}


class Tx(ast.NodeTransformer):
    def _n(self, name, node):
        return ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and (f.id in NOCALL or (f.id == "exec" and len(node.args) + len(node.keywords) < 2)):
            return node
        return ast.copy_location(ast.Call(func=self._n("__sx_c__", node), args=[f] + node.args, keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self._n("__sx_mod__", node), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=ast.copy_location(
                ast.BinOp(left=ast.copy_location(ast.Name(id=node.target.id, ctx=ast.Load()), node), op=ast.Mod(), right=node.value), node)), node))
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            name = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(ast.Call(func=self._n(name, node), args=[node.left, node.comparators[0]], keywords=[]), node)
        # chain with `in`: evaluated left to right through a helper with thunks
        ops = [type(o).__name__ for o in node.ops]
        thunks = [ast.copy_location(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=c), node) for c in node.comparators]
        return ast.copy_location(ast.Call(func=self._n("__sx_chain__", node),
                                          args=[node.left, ast.copy_location(ast.Constant(value=tuple(ops)), node)] + thunks, keywords=[]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.copy_location(ast.Constant(value=""), node)
                parts.append(ast.copy_location(ast.Call(func=self._n("__sx_fv__", node), args=[
                    val, ast.copy_location(ast.Constant(value=v.conversion), node), spec], keywords=[]), node))
        return ast.copy_location(ast.Call(func=self._n("__sx_fs__", node), args=[ast.copy_location(ast.List(elts=parts, ctx=ast.Load()), node)], keywords=[]), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) and not (
                isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int)):
            return ast.copy_location(ast.Call(func=self._n("__sx_gi__", node), args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_AnnAssign(self, node):
        node.annotation = ast.copy_location(ast.Constant(value=None), node)
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_MatchValue(self, node):
        return node


class TxTemplate(Tx):
    """For the code of templates: annotations are kept, they are evaluated."""

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        self.generic_visit(node)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


# ------------------------------------------------------------------ dispatch
FT = types.FunctionType
MT = types.MethodType
BT = types.BuiltinFunctionType

CALLED = set()  # code objects of the code under test that were executed symbolically
H = {}         # exact callable -> handler(args, kwargs)
STR_METHODS = {n for n in dir(rstr) if not n.startswith("__")}
PASS_MODULES = {"xml.dom.minidom", "xml.dom", "collections", "collections.abc", "ast", "_ast", "abc", "functools",
                "itertools", "_collections", "types", "copy", "weakref", "contextlib", "operator", "typing", "_operator",
                "z3", "symx.sstr", "symx.sre", "symx.core", "symx.instr", "symx.senv", "symx.vfs", "symx.charset", "symx.clir", "symx.cpy", "symx.jsnode"}
PASS_TYPES = (list, dict, set, frozenset, tuple, types.GeneratorType)
OPAQUE_REALIZE_NAMES = {"setAttribute", "hasAttribute", "getAttribute", "removeAttribute", "getAttributeNode"}


def handler(*fns):
    def deco(h):
        for f in fns:
            H[f] = h
        return h
    return deco


def c(f, /, *a, **k):
    t = type(f)
    e = core.CUR
    if e is not None and e.active:
        e.steps += 1
        if e.steps > e.max_steps or e.pending_stop is not None:
            e.tick(0)
    if t is FT:
        if "__sx_instrumented__" in f.__globals__:
            CALLED.add(f.__code__)
            return f(*a, **k)
        try:
            h = H.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(a, k)
        if f.__module__ in PASS_MODULES:
            return f(*a, **k)
        if has_sym(a) or (k and has_sym(k)):
            return f(*deep_realize(a), **deep_realize(k))
        return f(*a, **k)
    if t is MT:
        fn = f.__func__
        if type(fn) is FT and ("__sx_instrumented__" in fn.__globals__):
            CALLED.add(fn.__code__)
            return f(*a, **k)
        mod = getattr(fn, "__module__", None)
        if mod in PASS_MODULES:
            if f.__name__ in OPAQUE_REALIZE_NAMES and a:
                a = (realize(a[0]),) + a[1:]
            return f(*a, **k)
        h = H.get(fn)
        if h is not None:
            return h((f.__self__,) + a, k)
        if has_sym(a) or (k and has_sym(k)):
            return f(*deep_realize(a), **deep_realize(k))
        return f(*a, **k)
    if t is BT:
        s = f.__self__
        ts = type(s)
        if ts is list or ts is tuple:
            return f(*a, **k)
        if s is not None and not isinstance(s, types.ModuleType):
            if ts is rstr:
                n = f.__name__
                if n == "join":
                    items = a[0] if type(a[0]) in (list, tuple) else list(a[0])
                    for x in items:
                        if is_sym(x):
                            return s_join(s, items)
                    if any(isinstance_sym(x) for x in items):
                        return s_join(s, items)
                    return s.join(items)
                if has_sym(a) or (k and has_sym(k)):
                    # receiver concrete, arguments symbolic
                    o = sstr._raw(SStr, tuple(map(ord, s)))
                    return getattr(SStr, n)(o, *a, **k)
                return f(*a, **k)
            if ts is dict:
                n = f.__name__
                if a and is_sym(a[0]) and n in ("get", "pop", "setdefault", "__contains__", "__getitem__"):
                    key, found = dict_key(s, a[0])
                    if found:
                        return f(key, *a[1:], **k)
                    if n == "get" or (n == "pop" and len(a) > 1):
                        return a[1] if len(a) > 1 else None
                    if n == "__contains__":
                        return False
                    return f(realize(a[0]), *a[1:], **k)
                return f(*a, **k)
            if ts in (set, frozenset):
                if f.__name__ in ("add", "discard", "remove") and a and is_sym(a[0]):
                    return f(realize(a[0]))
                return f(*a, **k)
            if isinstance(s, (list, tuple, dict, set, types.GeneratorType, type)) or isinstance_sym(s):
                if isinstance(s, type) and s is rstr:
                    return f(*deep_realize(a), **deep_realize(k))
                return f(*a, **k)
            h = H.get((ts, f.__name__))
            if h is not None:
                return h((s,) + a, k)
            if has_sym(a) or (k and has_sym(k)):
                if ts.__module__ in PASS_MODULES:
                    return f(*a, **k)
                return f(*deep_realize(a), **deep_realize(k))
            return f(*a, **k)
        h = H.get(f)
        if h is not None:
            return h(a, k)
        if f in PASS_BUILTINS:
            return f(*a, **k)
        if has_sym(a) or (k and has_sym(k)):
            if f.__module__ in PASS_MODULES:
                return f(*a, **k)
            return f(*deep_realize(a), **deep_realize(k))
        return f(*a, **k)
    if isinstance(f, type):
        h = H.get(f)
        if h is not None:
            return h(a, k)
        if is_private_class(f):
            ini = getattr(f, "__init__", None)
            if type(ini) is FT:
                CALLED.add(ini.__code__)
            return f(*a, **k)
        if f.__module__ in PASS_MODULES or f in PASS_CLASSES or getattr(f, "__sx_cls__", False) or issubclass(f, BaseException) or issubclass(f, tuple) and hasattr(f, "_fields"):
            return f(*a, **k)
        if has_sym(a) or (k and has_sym(k)):
            return f(*deep_realize(a), **deep_realize(k))
        return f(*a, **k)
    # unbound slot wrappers / method descriptors such as str.lower
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        if a and f.__objclass__ is rstr:
            if isinstance_sym(a[0]) or has_sym(a[1:]):
                o = a[0] if isinstance_sym(a[0]) else sstr._raw(SStr, tuple(map(ord, a[0])))
                return getattr(SStr, f.__name__)(o, *a[1:], **k)
        return f(*a, **k)
    if t is LRU:
        # memoised function: the cache is transparent, and cannot hash symbolic text
        if has_sym(a) or (k and has_sym(k)):
            return c(f.__wrapped__, *a, **k)
        return f(*a, **k)
    return f(*a, **k)


LRU = type(__import__("functools").lru_cache(maxsize=1)(lambda: 0))
PASS_BUILTINS = {len, isinstance, issubclass, callable, id, iter, next, getattr, setattr, hasattr, delattr, sorted, min, max, any, all,
                 sum, abs, vars, globals, builtins.__build_class__}
PASS_CLASSES = {list, tuple, dict, set, frozenset, enumerate, zip, map, filter, reversed, range, bool, object, type, staticmethod,
                classmethod, property, slice, super, types.SimpleNamespace}


def is_private_class(f):
    return f.__module__ in PRIVATE.mods_by_name if PRIVATE is not None else False


def dict_key(d, key):
    """Fork: which concrete key of d equals the symbolic key?  -> (key, True) or (None, False)"""
    cs = key._c
    n = len(cs)
    cand = []
    for q in d:
        if isinstance(q, rstr) and len(q) == n:
            if isinstance_sym(q) and q._sym:
                if sstr.seq_eq(cs, q._c):
                    return q, True
                continue
            ok = True
            for x, y in zip(cs, q):
                if type(x) is int:
                    if x != ord(y):
                        ok = False
                        break
                elif ord(y) not in (engine().narrow[x.name] if x.isvar else x.dom):
                    ok = False
                    break
            if ok:
                cand.append(q)
    if not cand:
        return None, False
    # decide character by character along a trie of the candidates
    cand.sort()
    pos = 0
    while True:
        if pos == n:
            return cand[0], True
        x = cs[pos]
        if type(x) is int:
            cand = [q for q in cand if ord(q[pos]) == x]
            if not cand:
                return None, False
        else:
            heads = sorted({ord(q[pos]) for q in cand})
            if not ch_in(x, CS.of(heads)):
                return None, False
            hit = None
            for hd in heads:
                if ch_in(x, CS.rng(hd, hd)):
                    hit = hd
                    break
            if hit is None:
                raise EngineError("dict_key")
            cand = [q for q in cand if ord(q[pos]) == hit]
        pos += 1


def s_in(a, b):
    tb = type(b)
    if is_sym(a):
        if tb is rstr:
            return sstr.find(tuple(map(ord, b)), a._c, 0, len(b)) >= 0 if len(a._c) != 1 else ch_in(a._c[0], CS.of(map(ord, b)))
        if tb in (dict, set, frozenset) or (isinstance(b, (dict, set, frozenset)) and type(b).__contains__ in (dict.__contains__, set.__contains__, frozenset.__contains__)):
            return dict_key(b, a)[1]
        if tb in (list, tuple):
            for x in b:
                if x is a or x == a:
                    return True
            return False
        kv = type({}.keys())
        if tb is kv:
            return dict_key(list(b), a)[1]
        return a in b
    if isinstance_sym(a) and tb is rstr:
        return mk(a._c) in b
    return a in b


def s_notin(a, b):
    return not s_in(a, b)


def s_chain(left, ops, *thunks):
    import operator as o
    tab = {"Eq": o.eq, "NotEq": o.ne, "Lt": o.lt, "LtE": o.le, "Gt": o.gt, "GtE": o.ge, "Is": o.is_, "IsNot": o.is_not,
           "In": s_in, "NotIn": s_notin}
    r = True
    for op, th in zip(ops, thunks):
        right = th()
        r = tab[op](left, right)
        if not r:
            return r
        left = right
    return r


def s_mod(a, b):
    if type(a) is rstr:
        if has_sym(b) or not _plain(b):
            return mod_format(a, b)
        return a % b
    return a % b


def _plain(b):
    if isinstance(b, (rstr, int, float)) and not isinstance_sym(b):
        return True
    if type(b) is tuple:
        return all(_plain(x) for x in b)
    return False


def s_fv(v, conv, spec):
    if conv == 114:
        v = repr(realize(v)) if is_sym(v) else s_repr(v)
    elif conv == 115:
        v = to_str(v)
    elif conv == 97:
        v = ascii(deep_realize(v))
    return do_format(v, spec)


def s_fs(parts):
    for p in parts:
        if isinstance_sym(p):
            return fstring(parts)
    return "".join(parts)


def s_gi(o, k):
    if is_sym(k):
        if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
            key, found = dict_key(o, k)
            if found:
                return o[key]
            miss = getattr(type(o), "__missing__", None)
            if miss is not None:
                return miss(o, k)
            raise KeyError(k)
        t = type(o)
        if t.__module__ not in PASS_MODULES and not is_private_class(t) and not getattr(t, "__sx_cls__", False):
            return o[realize(k)]
    return o[k]


def s_repr(v):
    if is_sym(v):
        return repr(realize(v))
    return repr(v)


# ------------------------------------------------------------------ handlers
@handler(rstr)
def _h_str(a, k):
    return to_str(*a, **k) if a else rstr(**k)


@handler(SStr)
def _h_sstr(a, k):
    return to_str(*a, **k) if a else ""


@handler(type)
def _h_type(a, k):
    if len(a) == 1:
        t = type(a[0])
        if t is rstr:
            return SStr
        return t
    return type(*a, **k)


@handler(ord)
def _h_ord(a, k):
    x = a[0]
    if is_sym(x):
        if len(x._c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x._c))
        ch = x._c[0]
        import z3
        return SNum(z3.BV2Int(ch.e))
    return ord(x if not isinstance_sym(x) else mk(x._c))


@handler(chr)
def _h_chr(a, k):
    x = a[0]
    if type(x) is SNum:
        return chr(x.realize())
    return chr(*a)


@handler(repr)
def _h_repr(a, k):
    return s_repr(a[0])


@handler(hash)
def _h_hash(a, k):
    return hash(a[0])


@handler(bool)
def _h_bool(a, k):
    return bool(*a)


@handler(isinstance)
def _h_isinstance(a, k):
    x, t = a
    if type(x) is SNum:
        import z3
        py = int if x.e.sort() == z3.IntSort() else float
        ts = t if isinstance(t, tuple) else (t,)
        return any(issubclass(py, q) for q in ts if isinstance(q, type))
    return isinstance(x, t)


@handler(print)
def _h_print(a, k):
    return None


class SStringIO(object):
    """StringIO over symbolic text (reading only)."""
    __sx_cls__ = True

    def __init__(self, s="", newline="\n"):
        self.cs = list(chars(s)) if s else []
        self.pos = 0

    def seek(self, p, whence=0):
        if whence == 2:
            p = len(self.cs)
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def read(self, n=-1):
        e = len(self.cs) if n is None or n < 0 else min(len(self.cs), self.pos + n)
        r = mk(self.cs[self.pos:e])
        self.pos = max(self.pos, e)
        return r

    def readline(self, n=-1):
        i = self.pos
        while i < len(self.cs):
            c_ = self.cs[i]
            i += 1
            if ch_eq(c_, 10):
                break
        r = mk(self.cs[self.pos:i])
        self.pos = max(self.pos, i)
        return r

    def readlines(self):
        return list(self)

    def write(self, s):
        cs = chars(s)
        self.cs[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def getvalue(self):
        return mk(self.cs)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l


@handler(_io.StringIO)
def _h_stringio(a, k):
    if a and is_sym(a[0]):
        return SStringIO(*a, **k)
    if a and isinstance_sym(a[0]):
        a = (mk(a[0]._c),) + a[1:]
    return _io.StringIO(*a, **k)


def _h_gentok(a, k):
    """The real tokenizer for the concrete last line of a text, its model otherwise."""
    import tokenize
    from . import pytok
    rl = a[0]
    state = []

    def readline():
        if state:
            return state.pop()
        return c(rl)
    try:
        first = readline()
    except StopIteration:
        first = ""
    if not is_sym(first) and (not first or not first.endswith("\n")):
        state.append(rstr(realize(first)))
        return tokenize.generate_tokens(lambda: realize(readline()))
    state.append(first)
    return pytok.generate_tokens(readline)


import tokenize as _tokenize
H[_tokenize.generate_tokens] = _h_gentok


def subst_consts(tree, env):
    """Replace symbolic string constants by names bound in env."""
    class S(ast.NodeTransformer):
        def visit_Constant(self, node):
            v = node.value
            if isinstance_sym(v):
                if not v._sym:
                    node.value = mk(v._c)
                    return node
                n = "__sx_k%d__" % len(env)
                env[n] = v
                return ast.copy_location(ast.Name(id=n, ctx=ast.Load()), node)
            return node

        def generic_visit(self, node):
            for f, v in ast.iter_fields(node):
                if isinstance_sym(v):
                    setattr(node, f, realize(v))
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if isinstance_sym(x):
                            v[i] = realize(x)
            for at in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                x = getattr(node, at, None)
                if type(x) is SNum:
                    setattr(node, at, x.realize())
            return super().generic_visit(node)
    return S().visit(tree)


class CodeWithConsts(object):
    __sx_cls__ = True

    def __init__(self, code, env):
        self.code = code
        self.env = env


@handler(compile)
def _h_compile(a, k):
    a = list(a)
    src = a[0]
    rest = [deep_realize(x) for x in a[1:]]
    flags = (rest[2] if len(rest) > 2 else k.get("flags", 0)) or 0
    k = deep_realize(k)
    if isinstance(src, ast.AST):
        if flags & ast.PyCF_ONLY_AST:
            return compile(src, *rest, **k)
        env = {}
        tree = subst_consts(src, env)
        tree = TxTemplate().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, *rest, **k)
        return CodeWithConsts(code, env)
    src = realize(src)
    if flags & ast.PyCF_ONLY_AST:
        return compile(src, *rest, **k)
    tree = ast.parse(src, rest[0] if rest else "<string>", rest[1] if len(rest) > 1 else k.get("mode", "exec"))
    tree = TxTemplate().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, *rest, **k)


def without_engine(tb):
    """A traceback without the frames of the engine (in place)."""
    while tb is not None and tb.tb_frame.f_code.co_filename.startswith(ENGINE):
        tb = tb.tb_next
    t = tb
    while t is not None:
        n = t.tb_next
        while n is not None and n.tb_frame.f_code.co_filename.startswith(ENGINE):
            n = n.tb_next
        t.tb_next = n
        t = n
    return tb


@handler(_sys.exc_info)
def _h_excinfo(a, k):
    t, v, tb = _sys.exc_info()
    return t, v, without_engine(tb)


@handler(ast.parse)
def _h_astparse(a, k):
    return ast.parse(*deep_realize(a), **deep_realize(k))


@handler(ast.literal_eval)
def _h_leval(a, k):
    x = a[0]
    if isinstance(x, ast.AST):
        if any(isinstance(n, ast.Constant) and isinstance_sym(n.value) for n in ast.walk(x)):
            import copy
            x = copy.deepcopy(x)
            for n in ast.walk(x):
                if isinstance(n, ast.Constant):
                    n.value = realize(n.value)
        return ast.literal_eval(x)
    return ast.literal_eval(realize(x))


@handler(exec)
def _h_exec(a, k):
    code = a[0]
    g = a[1] if len(a) > 1 else k.get("globals")
    l = a[2] if len(a) > 2 else k.get("locals")
    if g is None:
        raise EngineError("exec without globals")
    if isinstance(code, CodeWithConsts):
        g.update(code.env)
        code = code.code
    elif isinstance(code, rstr):
        code = _h_compile((code, "<string>", "exec"), {})
    g.setdefault("__builtins__", PRIVATE.builtins)
    g.setdefault("__sx_instrumented__", True)
    if l is None:
        return exec(code, g)
    return exec(code, g, l)


@handler(int)
def _h_int(a, k):
    if a and type(a[0]) is SNum:
        import z3
        if a[0].e.sort() == z3.IntSort():
            return a[0]
        return SNum(z3.ToInt(a[0].e))
    return int(*deep_realize(a), **deep_realize(k))


@handler(float)
def _h_float(a, k):
    if a and type(a[0]) is SNum:
        return a[0]
    return float(*deep_realize(a), **deep_realize(k))


@handler(format)
def _h_format(a, k):
    return do_format(*a)


import types as _types
import traceback as _traceback


# ------------------------------------------------------------------ importer
class Private(object):
    """Holds the private, instrumented modules of one process."""

    def __init__(self, roots, paths, block=(), shims=None, lib=()):
        self.roots = tuple(roots)          # package names to instrument, searched on `paths`
        self.lib = set(lib)                # library modules to instrument
        self.paths = list(paths)
        self.block = set(block)
        self.mods = {}
        self.mods_by_name = self.mods
        self.shims = dict(shims or {})
        self.shims.setdefault("re", sre.ReModule())
        self.files = {}
        b = dict(vars(builtins))
        b["str"] = SStr
        b["__import__"] = self.imp
        b["__sx_c__"] = c
        b["__sx_in__"] = s_in
        b["__sx_notin__"] = s_notin
        b["__sx_chain__"] = s_chain
        b["__sx_mod__"] = s_mod
        b["__sx_fv__"] = s_fv
        b["__sx_fs__"] = s_fs
        b["__sx_gi__"] = s_gi
        self.builtins = b

    def snapshot(self):
        """Remember the module level state, so that every path starts from it."""
        self.snap = []
        seen = set()

        def keep(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            if type(o) is dict:
                self.snap.append((o, dict(o)))
            elif type(o) is list:
                self.snap.append((o, list(o)))
            elif type(o) is set:
                self.snap.append((o, set(o)))
        for name, m in list(self.mods.items()):
            if name.split(".")[0] not in ("tonnikala", "props"):
                continue
            keep(m.__dict__)
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                keep(v)
                if isinstance(v, type) and getattr(v, "__module__", None) == name:
                    for x in list(vars(v).values()):
                        keep(x)

    def restore_state(self):
        for o, c0 in getattr(self, "snap", ()):
            if type(o) is list:
                if len(o) != len(c0) or any(x is not y for x, y in zip(o, c0)):
                    o[:] = c0
            elif type(o) is dict:
                if len(o) != len(c0) or any(o.get(k, o) is not v for k, v in c0.items()):
                    o.clear()
                    o.update(c0)
            elif o != c0:
                o.clear()
                o.update(c0)

    def wants(self, name):
        if name in self.lib:
            return True
        return any(name == r or name.startswith(r + ".") for r in self.roots)

    def find(self, name):
        parts = name.split(".")
        for p in self.paths:
            base = os.path.join(p, *parts)
            if os.path.isfile(os.path.join(base, "__init__.py")):
                return os.path.join(base, "__init__.py"), True
            if os.path.isfile(base + ".py"):
                return base + ".py", False
        if name in self.lib or parts[0] in self.lib:
            spec = importlib.util.find_spec(name)
            if spec is not None and spec.origin and spec.origin.endswith(".py"):
                return spec.origin, bool(spec.submodule_search_locations)
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            if "." in name:
                pn, _, last = name.rpartition(".")
                pm = self.mods.get(pn)
                if pm is not None and last not in pm.__dict__:
                    setattr(pm, last, m)
            return m
        if name in self.block:
            raise ImportError("blocked: %s" % name, name=name)
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        fn, ispkg = self.find(name)
        if fn is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        with open(fn, encoding="utf-8") as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(fn)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__sx_instrumented__"] = True
        self.mods[name] = m
        self.files[name] = fn
        try:
            tree = ast.parse(src, fn)
            tree = Tx().visit(tree)
            ast.fix_missing_locations(tree)
            exec(compile(tree, fn, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:len(parts) - level + 1]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        if name in self.block:
            raise ImportError("blocked: %s" % name, name=name)
        if name in self.shims:
            return self.shims[name]
        if not self.wants(name):
            return builtins.__import__(name, None, None, fromlist, 0)
        m = self.load(name)
        if not fromlist:
            if level:
                return m
            top = name.split(".")[0]
            if self.wants(top):
                return self.load(top)
            return builtins.__import__(top)
        for f in fromlist:
            if f == "*":
                continue
            if not hasattr(m, f) and hasattr(m, "__path__"):
                try:
                    self.load(name + "." + f)
                except ModuleNotFoundError:
                    pass
        return m


PRIVATE = None


def install(p):
    global PRIVATE
    PRIVATE = p
    return p
