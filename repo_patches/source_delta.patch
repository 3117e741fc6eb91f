From 15d91d52287593d03cc8c8889bb66c6cdc0a1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 01/60] fix: parse control tags inside title and textarea

---
 tonnikala/syntaxes/docparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..6429631 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -140,6 +140,10 @@ else:
 
 # object to force a new-style class!
 class TonnikalaHTMLParser(html_parser.HTMLParser, object):
+    # title and textarea may contain control tags; newer versions of
+    # html.parser would hand their content over as plain text
+    RCDATA_CONTENT_ELEMENTS = ()
+
     void_elements = {
         "area",
         "base",
-- 
2.43.0


From 9902728b088ac30eee29f746082d07ab373511a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 02/60] fix: report an end tag without a start tag as a
 template syntax error

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 6429631..aad5a66 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -276,6 +276,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_endtag(self, name):
         self.flush_character_data()
+        if len(self.elements) < 2:
+            self.syntax_error("Unexpected end tag </%s>" % name)
+
         popped = self.elements.pop()
 
         if name.lower() != popped.name.lower():
-- 
2.43.0


From b71cdcf1624049046015a3bbdb0e4ab24d177c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 03/60] fix: accept a processing instruction without content

---
 tonnikala/syntaxes/docparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index aad5a66..f50a714 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -301,12 +301,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
-
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        type_, data = (data.split(None, 1) + ["", ""])[:2]
+
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
-- 
2.43.0


From fc7e0e42b9480544b3dd99d38798dfc1660a5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 04/60] fix: report a second root element as a template syntax
 error

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index f50a714..0129280 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -256,6 +256,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
+        if len(self.elements) == 1 and self.doc.documentElement is not None:
+            self.syntax_error("Only one root element allowed, found <%s>" % name)
+
         attr_pos = self.find_attr_positions(attrs)
         el = self.doc.createElement(name)
         el.name = name
-- 
2.43.0


From f837b610a9316a74af4c7bdb587df6288e18eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 05/60] fix: accept a lower case doctype, report a malformed
 one as a template syntax error

---
 tonnikala/syntaxes/docparser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 0129280..f2cff39 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -354,8 +354,15 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
-        self.elements[-1].appendChild(dt)
+        self.flush_character_data()
+        if decl[:7].lower() == "doctype":
+            decl = "DOCTYPE" + decl[7:]
+
+        try:
+            dt = dom.parseString("<!%s><html/>" % decl).doctype
+            self.elements[-1].appendChild(dt)
+        except Exception as e:
+            self.syntax_error("Invalid declaration <!%s>: %s" % (decl, e))
 
     def unknown_decl(self, decl):
         self.syntax_error("Unknown declaration: %s" % decl)
-- 
2.43.0


From 2cfb2c304cb4408636172720ebf15d86b9fe51e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 06/60] fix: accept hexadecimal character references with an
 upper case X

---
 tonnikala/syntaxes/docparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index f2cff39..58c76d9 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -334,7 +334,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code[:1] in ("x", "X"):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
-- 
2.43.0


From 0626ec7ade161f4ce60987009573ad307a603b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 07/60] fix: report an unterminated first token of an
 expression as a template syntax error

---
 tonnikala/languages/python/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..28c929d 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
@@ -53,7 +54,7 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except TokenError as e:
+    except (TokenError, SyntaxError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
         raise TemplateSyntaxError(e.args[0], node=s)
-- 
2.43.0


From e1766ee0a9a6f6ad4eb1a2d92be95900ce60f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 08/60] fix: accept whitespace before a Python expression

---
 tonnikala/languages/python/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..ea207b0 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
-from ...helpers import StringWithLocation
+from ...helpers import StringWithLocation, calculate_position
 from ...runtime.debug import TemplateSyntaxError
 
 try:  # pragma: no cover
@@ -105,6 +105,12 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     position = getattr(expression, "position", (1, 0))
     position = position[0] + adjust[0], position[1] + adjust[1]
 
+    if mode == "eval":
+        # the whitespace would be taken for indentation
+        indent = len(expression) - len(expression.lstrip())
+        position = calculate_position(str(expression), indent, position)
+        expression = expression.lstrip()
+
     tree = None
     t = None
     try:
-- 
2.43.0


From b01fa42a488445f22df9136781c135ad0e1b98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 09/60] fix: do not hide a context variable that has the name
 of a comprehension variable

---
 tonnikala/languages/python/astalyzer.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..fcea878 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -50,6 +50,29 @@ class FreeVarFinder(ast.NodeVisitor):
     def visit_arguments(self, node):
         pass
 
+    def do_visit_comprehension(self, node):
+        # the outermost iterable is evaluated in the enclosing scope, the
+        # loop variables are visible within the comprehension only
+        outermost = node.generators[0].iter
+        self.visit(outermost)
+        subscoper = FreeVarFinder()
+        for field in ("elt", "key", "value"):
+            if hasattr(node, field):
+                subscoper.visit(getattr(node, field))
+
+        for generator in node.generators:
+            subscoper.visit(generator.target)
+            for part in [generator.iter] + generator.ifs:
+                if part is not outermost:
+                    subscoper.visit(part)
+
+        self.vars = self.vars.union(subscoper.get_free_variables())
+
+    visit_ListComp = do_visit_comprehension
+    visit_SetComp = do_visit_comprehension
+    visit_DictComp = do_visit_comprehension
+    visit_GeneratorExp = do_visit_comprehension
+
     def do_visit_lambda_defaults(self, node):
         for field, value in ast.iter_fields(node):
             if field == "args":
-- 
2.43.0


From cd4b14034b1335b2856572d0af5f8bbadb3fe65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 10/60] fix: literal() output is not escaped in attributes and
 nested expressions

---
 tonnikala/loader.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..d896014 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -5,6 +5,8 @@ import sys
 import time
 from typing import Iterable, Optional
 
+from markupsafe import Markup
+
 from .helpers import reraise
 from .languages.javascript.generator import Generator as JavascriptGenerator
 from .languages.python.generator import Generator as PythonGenerator
@@ -28,8 +30,17 @@ class Helpers:
 
 escape = python.escape
 
+
+def literal(value):
+    """Mark the value as markup; None and booleans have no text to be marked"""
+    if value is None or isinstance(value, bool):
+        return value
+
+    return Markup(value)
+
+
 helpers = Helpers()
-helpers.literal = lambda x: x
+helpers.literal = literal
 helpers.gettext = lambda x: x
 helpers.egettext = lambda x: escape(x)
 
-- 
2.43.0


From 5f84b6cc2724b622e1411240090e5002cd01891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 11/60] fix: a cached template whose file was deleted no longer
 breaks reloading

---
 tonnikala/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index d896014..b505dbb 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -260,11 +260,13 @@ class FileLoader(Loader):
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except OSError:
                 self.cache.pop(name)
                 continue
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime > tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From 0cdd21b2e7221b82ca7a74de6755553d80361e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 12/60] fix: take the modification time before reading, so that
 a concurrent change is noticed

---
 tonnikala/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index b505dbb..182a353 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -292,8 +292,8 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From 8e04a5595f23a3fcfe324296fba73222eec72830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 13/60] fix: report an invalid syntax name with ValueError

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 182a353..2e730fc 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -169,7 +169,8 @@ class Loader(object):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
             raise ValueError(
-                "Invalid parser syntax %s: valid syntaxes: %r" % sorted(parsers.keys())
+                "Invalid parser syntax %s: valid syntaxes: %r"
+                % (self.syntax, sorted(parsers.keys()))
             )
 
         try:
-- 
2.43.0


From b4318759969a8b9b4bcd44934a6e35af9f825217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 14/60] fix: the Python buffer accepts any attribute name that
 the C buffer accepts

---
 tonnikala/runtime/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 9716492..10d901e 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -20,6 +20,7 @@ class _TKPythonBufferImpl(object):
         self.output = do_output
 
         def output_boolean_attr(name, value):
+            name = str(name)
             t = type(value)
             if t in (bool, NoneType):
                 value and do_output(" " + name + '="' + name + '"')
-- 
2.43.0


From cb2c333725bf2ea87a43046078c9554b3263f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 15/60] fix: defs and blocks are not replaced by context
 variables or builtins of the same name

---
 tonnikala/runtime/python.py | 45 ++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index 10d901e..fa1fd43 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -73,19 +73,43 @@ def output_attrs(values):
     return rv
 
 
+class Bindings(object):
+    """
+    The context as it was before any template was bound to it,
+    and the names that templates have bound in it since.
+    """
+
+    KEY = "__TK__bindings__"
+
+    def __init__(self, context):
+        self.original_context = context.copy()
+        self.names = set()
+
+    @classmethod
+    def of(cls, context):
+        if cls.KEY not in context:
+            context[cls.KEY] = cls(context)
+
+        return context[cls.KEY]
+
+
 def bind(context, block=False):
     """
     Given the context, returns a decorator wrapper;
     the binder replaces the wrapped func with the
-    value from the context OR puts this function in
-    the context with the name.
+    value bound to the context by a more derived
+    template OR puts this function in the context
+    with the name.
     """
 
+    bound_names = Bindings.of(context).names
+
     if block:
 
         def decorate(func):
             name = func.__name__.replace("__TK__block__", "")
-            if name not in context:
+            if name not in bound_names:
+                bound_names.add(name)
                 context[name] = func
             return context[name]
 
@@ -93,7 +117,8 @@ def bind(context, block=False):
 
     def decorate(func):
         name = func.__name__
-        if name not in context:
+        if name not in bound_names:
+            bound_names.add(name)
             context[name] = func
         return context[name]
 
@@ -126,15 +151,15 @@ class TonnikalaRuntime(object):
         return self.loader.load(href)
 
     def import_defs(self, context, href):
+        if Bindings.KEY in context:
+            # imported by a base template
+            context = context[Bindings.KEY].original_context
+
         modified_context = context.copy()
         self.loader.load(href).bind(modified_context)
         container = ImportedTemplate(href)
 
-        for k, v in modified_context.items():
-            # modified
-            if k in context and context[k] is v:
-                continue
-
-            setattr(container, k, v)
+        for name in Bindings.of(modified_context).names:
+            setattr(container, name, modified_context[name])
 
         return container
-- 
2.43.0


From 8915a2572497de691914311b57385627125ebef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 16/60] fix: negate the whole js:strip expression, not its
 first operand

---
 tonnikala/languages/javascript/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..5802178 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -353,6 +353,8 @@ class JsIfNode(JsComplexNode):
 
 def JsUnlessNode(self, expression):
     expression = get_fragment_ast(expression)
+    # the expression may bind less tightly than the negation
+    expression._parens = True
     expression = UnaryOp(op="!", value=expression)
     return JsIfNode(expression)
 
-- 
2.43.0


From 257b953da06f2c09f6f8f8435f8c19ed903e518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 17/60] fix: literal() is available in JavaScript templates

---
 tonnikala/languages/javascript/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 5802178..81362bc 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -74,6 +74,7 @@ except ImportError:
 name_counter = 0
 ALWAYS_BUILTINS = """
     undefined
+    literal
 """.split()
 
 
-- 
2.43.0


From 0857048b4ea4f21580569e86c263933b0c25e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 18/60] fix: variables of js:with are visible within the
 element only

---
 tonnikala/languages/javascript/generator.py | 26 ++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 81362bc..bee57e4 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -231,9 +231,19 @@ class JavascriptNode(LanguageNode):
 
         return func
 
-    def generate_varscope(self, body):
+    def generate_varscope(self, body, variables=()):
         name = gen_name()
-        rv = [self.make_function(name, body), Expr(SimpleCall(NameX(name), []))]
+        arguments = []
+        for i in variables:
+            argument = NameX(i)
+            # a reference to the outer variable
+            argument._mangle_candidate = True
+            arguments.append(argument)
+
+        rv = [
+            self.make_function(name, body, arguments=[NameX(i) for i in variables]),
+            Expr(SimpleCall(NameX(name), arguments)),
+        ]
         return rv
 
 
@@ -501,8 +511,18 @@ class JsWithNode(JsComplexNode):
                     "Only assignment statements allowed in With; not %s" % self.vars
                 )
 
+        variables = []
+        for i in var_defs:
+            target = getattr(i.expr, "left", None)
+            if (
+                isinstance(i.expr, JSAssign)
+                and isinstance(target, Identifier)
+                and target.value not in variables
+            ):
+                variables.append(target.value)
+
         body = var_defs + self.generate_child_ast(generator, self)
-        return self.generate_varscope(body)
+        return self.generate_varscope(body, variables)
 
 
 class JsComplexExprNode(JsComplexNode):
-- 
2.43.0


From 562fbcebe747b17b214a1dd7f0c7a00e5e6d32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 19/60] fix: the C buffer releases everything that it acquired

---
 tonnikala/runtime/_buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index f2e4627..d8ae0b2 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -26,6 +26,10 @@ static void
 Buffer_dealloc(Buffer* self)
 {
     Py_XDECREF(self->buffer_list);
+    Py_XDECREF(self->escape_func);
+    Py_XDECREF(self->equals_quot);
+    Py_XDECREF(self->quot);
+    Py_XDECREF(self->space);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -87,6 +91,7 @@ _do_append(Buffer *self, PyObject *args) {
                     return NULL;
                 }
                 if (PyList_Append(self->buffer_list, obj) != 0) {
+                    Py_DECREF(obj);
                     return NULL;
                 }
                 // it is a new reference
@@ -150,7 +155,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         if (call == NULL) {
             PyErr_SetString(PyExc_TypeError,
                 "escape function is not callable");
-            return NULL;
+            goto error;
         }
 
         PyObject *escape_args = PyTuple_New(1);
@@ -158,11 +163,11 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         PyTuple_SET_ITEM(escape_args, 0, value);
 
         PyObject *result = (*call)(self->escape_func, escape_args, NULL);
+        Py_DECREF(escape_args);
         if (result == NULL) {
             goto error;
         }
 
-        Py_DECREF(escape_args);
         value = result;
     }
 
@@ -185,6 +190,7 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
 
     return rv;
 error:
+    Py_XDECREF(tmp);
     return NULL;
 }
 
-- 
2.43.0


From 54570f2f5a16e901d33106d2ecfb90990d605de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 20/60] fix: the C buffer reports failed allocations instead of
 crashing

---
 tonnikala/runtime/_buffer.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index d8ae0b2..6fb7f88 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -43,6 +43,12 @@ Buffer_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     self = (Buffer *)type->tp_alloc(type, 0);
     if (self != NULL) {
         PyObject* module = PyState_FindModule(&buffermodule);
+        if (module == NULL) {
+            PyErr_SetString(PyExc_RuntimeError, "the module is not loaded");
+            Py_DECREF(self);
+            return NULL;
+        }
+
         self->buffer_list = PyList_New(0);
         if (self->buffer_list == NULL) {
             Py_DECREF(self);
@@ -159,6 +165,10 @@ Buffer_output_boolean_attr(Buffer *self, PyObject *args) {
         }
 
         PyObject *escape_args = PyTuple_New(1);
+        if (escape_args == NULL) {
+            goto error;
+        }
+
         Py_INCREF(value);
         PyTuple_SET_ITEM(escape_args, 0, value);
 
@@ -199,6 +209,10 @@ static PyObject *
 Buffer_join(PyObject *self, PyObject *args) {
     PyObject *sep, *rv;
     sep = PyUnicode_InternFromString("");
+    if (sep == NULL) {
+        return NULL;
+    }
+
     rv = PyUnicode_Join(sep, ((Buffer*)self)->buffer_list);
     Py_DECREF(sep);
     return rv;
@@ -349,5 +363,10 @@ PyInit__buffer(void)
     st->space = PyUnicode_FromString(" ");
     st->quot = PyUnicode_FromString("\"");
 
+    if (!st->equals_quot || !st->space || !st->quot) {
+        Py_DECREF(m);
+        return ERROR_RET;
+    }
+
     return m;
 }
-- 
2.43.0


From c5dd38aa595442e1f1b5db40a3f96f2be21285f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 21/60] fix: _set_escape_method of the C buffer requires its
 argument

---
 tonnikala/runtime/_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 6fb7f88..0083e73 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -235,7 +235,7 @@ _set_escape_method(PyObject *self, PyObject *args, PyObject *kwargs) {
 
     PyObject *escape = NULL;
     if (!PyArg_ParseTupleAndKeywords(args, kwargs,
-        "|O:_set_escape_method", _keywords,
+        "O:_set_escape_method", _keywords,
         &escape))
         goto exit;
 
-- 
2.43.0


From 167c6437d090a1285b2b582af309ec5fbf74f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 22/60] fix: accept attributes without value in Chameleon
 templates

---
 tonnikala/syntaxes/chameleon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 0e0d1a4..a2e877f 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -1,6 +1,6 @@
 """XML parser"""
 
-from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression
+from tonnikala.ir.nodes import Element, If, For, EscapedText, Expression, EmptyAttrVal
 from xml.dom.minidom import Node
 
 from tonnikala.expr import handle_text_node  # TODO: move this elsewhere.
@@ -17,7 +17,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
-        attrs = [(k, handle_text_node(v)) for (k, v) in dom_node.attributes.items()]
+        attrs = [
+            (k, handle_text_node(v) if v is not None else EmptyAttrVal())
+            for (k, v) in dom_node.attributes.items()
+        ]
         self.generate_attributes(ir_node, attrs=attrs, dynamic_attrs=attrs_node)
 
     def is_control_name(self, name, to_match):
-- 
2.43.0


From dee02b36e2fb66051d57476173eda75ce1996547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 23/60] fix: accept a doctype in Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index a2e877f..67ce447 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -138,7 +138,10 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
-        raise ValueError("Unhandled node type %d" % node_t)
+        if node_t == Node.DOCUMENT_TYPE_NODE:
+            return EscapedText(dom_node.toxml())
+
+        self.syntax_error("Unhandled node type %d" % node_t, dom_node.position[0])
 
 
 def parse(filename, string, translatable=False):
-- 
2.43.0


From 7a4904636f747403d123357eb917683c95319a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 24/60] fix: locate errors in Chameleon templates

---
 tonnikala/syntaxes/chameleon.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index 67ce447..cfba5c2 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -48,11 +48,15 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
         generate_element = not bool(ir_node_stack)
         attr = self.grab_and_remove_control_attr(dom_node, "condition")
         if attr is not None:
-            ir_node_stack.append(If(attr))
+            irnode = If(attr)
+            irnode.position = getattr(attr, "position", (0, 0))
+            ir_node_stack.append(irnode)
 
         attr = self.grab_and_remove_control_attr(dom_node, "repeat")
         if attr is not None:
-            ir_node_stack.append(For(attr))
+            irnode = For(attr)
+            irnode.position = getattr(attr, "position", (0, 0))
+            ir_node_stack.append(irnode)
 
         # TODO: add all control attrs in order
         if not ir_node_stack:
@@ -150,7 +154,9 @@ def parse(filename, string, translatable=False):
 
     parser = TonnikalaHTMLParser(filename, string)
     parsed = parser.parse()
-    generator = ChameleonIRGenerator(parsed)
+    generator = ChameleonIRGenerator(
+        document=parsed, filename=filename, source=string
+    )
     tree = generator.generate_tree()
 
     tree = generator.flatten_element_nodes(tree)
-- 
2.43.0


From c772a0488d98d0d9f142226564e8c9a9b2800e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 25/60] fix: the Pyramid renderer rejects sequences as its
 value

---
 tonnikala/pyramid/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/pyramid/__init__.py b/tonnikala/pyramid/__init__.py
index 7d81b72..9811d26 100644
--- a/tonnikala/pyramid/__init__.py
+++ b/tonnikala/pyramid/__init__.py
@@ -79,6 +79,9 @@ class TonnikalaTemplateRenderer(object):
         compiled = self.loader.load(name)
 
         try:
+            if not hasattr(value, "keys"):
+                raise TypeError("not a mapping")
+
             system.update(value)
         except (TypeError, ValueError):
             raise ValueError(
-- 
2.43.0


From 289bb66e97aea626683a15d00e06c717238005b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 26/60] fix: braces in the text of an f-string are not brackets
 of the expression

---
 tonnikala/languages/python/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 28c929d..67568a4 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -72,6 +72,9 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -109,10 +112,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From 6a2d9114f8368e16ecf21ea21cd0bcea017fee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 27/60] fix: indentation is not significant in a braced
 expression

---
 tonnikala/languages/python/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 67568a4..25f7fd3 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -70,18 +70,18 @@ def parse_brace_enclosed_expression(text, start_pos, position):
     n_braces = 0
     valid = False
 
-    tokens = gen_tokens(text, start_pos + 2)
+    # start from the brace: indentation is not significant within it
+    tokens = gen_tokens(text, start_pos + 1)
     for t_type, content, end_pos in tokens:
         if t_type != token.OP:
             continue
 
         if content == "}":
+            n_braces -= 1
             if n_braces <= 0:
                 valid = True
                 break
 
-            n_braces -= 1
-
         elif content == "{":
             n_braces += 1
 
-- 
2.43.0


From d4130d35ce0494e2c9fcff19f153a944572f9d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 28/60] fix: find the end of an expression in a JavaScript
 template by JavaScript rules

---
 tonnikala/languages/javascript/__init__.py | 15 +++++++++++----
 tonnikala/syntaxes/tonnikala.py            | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/tonnikala/languages/javascript/__init__.py b/tonnikala/languages/javascript/__init__.py
index 134f6f0..3b8857e 100644
--- a/tonnikala/languages/javascript/__init__.py
+++ b/tonnikala/languages/javascript/__init__.py
@@ -1,6 +1,5 @@
 import re
 
-from tonnikala.exceptions import ParseError
 from tonnikala.ir.nodes import InterpolatedExpression
 from tonnikala.languages.javascript.jslex import JsLexer
 from tonnikala.runtime.exceptions import TemplateSyntaxError
@@ -10,8 +9,9 @@ class JavascriptExpression(InterpolatedExpression):
     pass
 
 
-identifier_match = re.compile(r"[^\d\W][\w$]*", re.UNICODE)
-expr_continuation = re.compile(r"[([]|(\.[^\d\W][\w$]*)", re.UNICODE)
+# a dollar sign starts the next expression, as in $a$b
+identifier_match = re.compile(r"[^\d\W]\w*", re.UNICODE)
+expr_continuation = re.compile(r"[([]|(\.[^\d\W]\w*)", re.UNICODE)
 
 braces = {"[": "]", "(": ")"}
 
@@ -48,6 +48,11 @@ def parse_unenclosed_expression(text, start_pos):
                 if not pars:
                     break
 
+        if pars:
+            raise TemplateSyntaxError(
+                "Unclosed JavaScript expression", node=text[start_pos:]
+            )
+
     expr = text[start_pos + 1 : pos]
     return JavascriptExpression("$" + expr, expr)
 
@@ -76,7 +81,9 @@ def parse_expression(text, start_pos=0):
         length += len(content)
 
     if not valid:
-        raise ParseError("Unclosed braced Javascript expression", charpos=length)
+        raise TemplateSyntaxError(
+            "Unclosed braced JavaScript expression", node=text[start_pos:]
+        )
 
     return JavascriptExpression(
         text[start_pos : start_pos + length],
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..4b29a4b 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -17,11 +17,13 @@ from tonnikala.ir.nodes import (
 )
 from ..expr import handle_text_node  # TODO: move this elsewhere.
 from ..ir.generate import BaseDOMIRGenerator
+from ..languages import javascript, python
 from .docparser import TonnikalaHTMLParser
 
 
 class TonnikalaIRGenerator(BaseDOMIRGenerator):
     control_prefix = "py:"
+    expr_parser = staticmethod(python.parse_expression)
 
     TRANSLATABLE_ATTRS = {"title", "alt", "placeholder", "value", "caption"}
     UNTRANSLATABLE_ELEMENTS = {"style", "script"}
@@ -30,6 +32,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if "control_prefix" in kw:
             self.control_prefix = kw.pop("control_prefix") + ":"
 
+        if "expr_parser" in kw:
+            self.expr_parser = kw.pop("expr_parser")
+
         self.xmlns = "xmlns:" + self.control_prefix.replace(":", "")
 
         super(TonnikalaIRGenerator, self).__init__(*a, **kw)
@@ -57,7 +62,11 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
             if v is not None:
-                return handle_text_node(v, translatable=self.is_attr_translatable(k))
+                return handle_text_node(
+                    v,
+                    expr_parser=self.expr_parser,
+                    translatable=self.is_attr_translatable(k),
+                )
             else:
                 return EmptyAttrVal()
 
@@ -234,6 +243,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         if node_t == Node.TEXT_NODE:
             ir_node = handle_text_node(
                 dom_node.nodeValue,
+                expr_parser=self.expr_parser,
                 is_cdata=self.state["is_cdata"],
                 translatable=self.is_translatable(),
             )
@@ -279,6 +289,7 @@ def parse_js(filename, string, translatable=False):
         document=parsed,
         translatable=translatable,
         control_prefix="js",
+        expr_parser=javascript.parse_expression,
         filename=filename,
         source=string,
     )
-- 
2.43.0


From 4ffda2484bc2b6d212491878114d28e058e8f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 29/60] fix: a slash after this or after a non-ASCII identifier
 divides

---
 tonnikala/languages/javascript/jslex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/javascript/jslex.py b/tonnikala/languages/javascript/jslex.py
index 4b89851..39234b7 100644
--- a/tonnikala/languages/javascript/jslex.py
+++ b/tonnikala/languages/javascript/jslex.py
@@ -105,19 +105,19 @@ class JsLexer(Lexer):
                                 break case catch class const continue debugger
                                 default delete do else enum export extends
                                 finally for function if import in instanceof new
-                                return super switch this throw try typeof var
+                                return switch throw try typeof var
                                 void while with
                                 """,
                 suffix=r"\b",
             ),
             next="reg",
         ),
-        Tok("reserved", literals("null true false", suffix=r"\b"), next="div"),
+        Tok("reserved", literals("null true false this super", suffix=r"\b"), next="div"),
         Tok(
             "id",
             r"""
-                            ([a-zA-Z_$   ]|\\u[0-9a-fA-Z]{4})       # first char
-                            ([a-zA-Z_$0-9]|\\u[0-9a-fA-F]{4})*      # rest chars
+                            ([^\W\d]|\$|\\u[0-9a-fA-F]{4})        # first char
+                            ([\w$]|\\u[0-9a-fA-F]{4})*            # rest chars
                             """,
             next="div",
         ),
-- 
2.43.0


From 7597ca70502c9d11203c21ef45da2139bf68a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 30/60] fix: a slash after a legacy octal number divides

---
 tonnikala/languages/javascript/jslex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/jslex.py b/tonnikala/languages/javascript/jslex.py
index 39234b7..d1207db 100644
--- a/tonnikala/languages/javascript/jslex.py
+++ b/tonnikala/languages/javascript/jslex.py
@@ -122,7 +122,7 @@ class JsLexer(Lexer):
             next="div",
         ),
         Tok("hnum", r"0[xX][0-9a-fA-F]+", next="div"),
-        Tok("onum", r"0[0-7]+"),
+        Tok("onum", r"0[0-7]+", next="div"),
         Tok(
             "dnum",
             r"""
-- 
2.43.0


From 328ea4e5ef015027fde93f86c3eeb40ee62cd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:00 +0000
Subject: [PATCH 31/60] fix: a block within py:for or py:def elements compiles

---
 tonnikala/languages/python/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index ea207b0..2f1cfc9 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -167,6 +167,7 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
-- 
2.43.0


From dbc5f962fa0c697da08e983ab6df87a86265ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 32/60] fix: a control element without any content compiles

---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 2f1cfc9..f174e81 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -323,7 +323,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -429,7 +430,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From a73439aa034f1e89f559c44c11bbe553ccab3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 33/60] fix: a constant condition does not change what its
 contents define

---
 tonnikala/languages/python/generator.py | 27 +++----------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index f174e81..89c4613 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -1,7 +1,7 @@
 import ast
 import sys
 from ast import (
-    Call, FunctionDef, Pass, UnaryOp, iter_child_nodes, literal_eval,
+    Call, FunctionDef, Pass, UnaryOp, iter_child_nodes,
     NodeVisitor, If, Expr, Assign, Attribute,
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
@@ -139,21 +139,6 @@ def gen_name(typename=None):
         return "__TK_%d__" % (name_counter)
 
 
-def static_eval(expr):
-    if isinstance(expr, UnaryOp) and isinstance(expr.op, Not):
-        # bogus error from PyCharm
-        return not static_eval(expr.operand)  # NoQA
-
-    return literal_eval(expr)
-
-
-def static_expr_to_bool(expr):
-    try:
-        return bool(static_eval(expr))
-    except BaseException:
-        return None
-
-
 class PythonNode(LanguageNode):
     is_top_level = False
 
@@ -314,15 +299,9 @@ class PyIfNode(PyComplexNode):
         self.expression = expression
 
     def generate_ast(self, generator, parent):
+        # the Python compiler eliminates the code under a constant condition,
+        # and keeps the scopes of the names that are bound in it
         test = get_fragment_ast(self.expression)
-        boolean = static_expr_to_bool(test)
-
-        if boolean is False:
-            return []
-
-        if boolean is True:
-            return self.generate_child_ast(generator, parent)
-
         body = self.generate_child_ast(generator, self) or [Pass()]
         node = If(test=test, body=body, orelse=[])
         return [node]
-- 
2.43.0


From 5cbca24effcfff6506ba8625c6a079787e9e7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 34/60] fix: literal() of an object that has __html__ outputs
 its markup

---
 tonnikala/languages/python/generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 89c4613..173cc93 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -590,7 +590,7 @@ def coalesce_outputs(tree):
         def check(self, node):
             """
             Coalesce __TK__output(__TK__escape(literal(x))) into
-            __TK__output(x).
+            __TK__output(literal(x)).
             """
             if not ast_equals(node.func, NameX("__TK__output")):
                 return
@@ -616,7 +616,7 @@ def coalesce_outputs(tree):
                 if len(arg2.args) != 1:
                     continue
 
-                node.args[i] = arg2.args[0]
+                node.args[i] = arg2
 
         def visit_Call(self, node):
             self.check(node)
-- 
2.43.0


From e70ddecf0028c13adc33469a0f23055500b07171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 35/60] fix: names in annotations of parameters come from the
 context

---
 tonnikala/languages/python/astalyzer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index fcea878..1031ddf 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -75,9 +75,6 @@ class FreeVarFinder(ast.NodeVisitor):
 
     def do_visit_lambda_defaults(self, node):
         for field, value in ast.iter_fields(node):
-            if field == "args":
-                continue
-
             if isinstance(value, list):
                 for item in value:
                     if isinstance(item, ast.AST):
-- 
2.43.0


From c570395689a5c29c458af6ac73b94eb3f584c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 36/60] fix: names bound in a class body do not hide context
 variables outside of it

---
 tonnikala/languages/python/astalyzer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 1031ddf..defb65d 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,13 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def visit_ClassDef(self, node):
+        # names that are bound in the body are bound in it only
+        self.generated.add(node.name)
+        subscoper = FreeVarFinder()
+        subscoper.generic_visit(node)
+        self.vars = self.vars.union(subscoper.vars)
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0


From f2fc8daad292553603811232a14d972062692a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 37/60] fix: comments are allowed within py:extends

---
 tonnikala/ir/nodes.py           | 6 +++++-
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..7a7e4a9 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -100,6 +100,10 @@ class EscapedText(Text):
         return self.text
 
 
+class EscapedComment(EscapedText):
+    """A comment that is output as it was written in the source"""
+
+
 class Expression(BaseNode):
     is_cdata = False
 
@@ -333,7 +337,7 @@ class Extends(ContainerNode):
         other nodes, raise a syntax error.
         """
 
-        if isinstance(child, Comment):
+        if isinstance(child, (Comment, EscapedComment)):
             return
 
         # ignore Text nodes with whitespace-only content
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 4b29a4b..2a984bc 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -7,6 +7,7 @@ from tonnikala.ir.nodes import (
     For,
     Define,
     Import,
+    EscapedComment,
     EscapedText,
     Block,
     Extends,
@@ -250,7 +251,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.COMMENT_NODE:
-            ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
+            ir_node = EscapedComment(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-- 
2.43.0


From 8723c6204c381404568796a33b0602fee80299f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 38/60] fix: the Pyramid loader does not look up absolute names
 within packages

---
 tonnikala/pyramid/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tonnikala/pyramid/__init__.py b/tonnikala/pyramid/__init__.py
index 9811d26..a65f4c5 100644
--- a/tonnikala/pyramid/__init__.py
+++ b/tonnikala/pyramid/__init__.py
@@ -33,12 +33,15 @@ class PyramidTonnikalaLoader(tonnikala.loader.FileLoader):
         Resolve the name using the given search paths.
         """
 
+        if os.path.isabs(name):
+            return super(PyramidTonnikalaLoader, self).resolve(name)
+
         if ":" in name:
             try:
                 module, path = name.split(":", 1)
-                name = pkg_resources.resource_filename(module, path)
-                if name and os.path.exists(name):
-                    return name
+                path = pkg_resources.resource_filename(module, path)
+                if path and os.path.exists(path):
+                    return path
 
             except Exception:
                 pass
-- 
2.43.0


From 6f67082942205df2eb40a7bf12669ce1a4cc4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 39/60] fix: errors in converting a value are located at its
 expression

---
 tonnikala/languages/python/generator.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 173cc93..4cd017b 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -3,7 +3,7 @@ import sys
 from ast import (
     Call, FunctionDef, Pass, UnaryOp, iter_child_nodes,
     NodeVisitor, If, Expr, Assign, Attribute,
-    Str, Name, Load, Store, Not, arg, Raise, Return
+    Str, Name, Load, Store, Not, arg, Raise, Return, copy_location
 )
 from collections.abc import Iterable
 
@@ -32,6 +32,23 @@ def simple_call(func, args=None):
     return Call(func=func, args=args or [], keywords=[], starargs=None, kwargs=None)
 
 
+def located_call(func, args):
+    """
+    A call that is located at its last argument
+    """
+    call = simple_call(func, args)
+    source = args[-1]
+    copy_location(call, source)
+
+    # a method call is located at the end of the method
+    for node in ast.walk(func):
+        if "lineno" in node._attributes:
+            node.lineno = node.end_lineno = source.lineno
+            node.col_offset = node.end_col_offset = source.col_offset
+
+    return call
+
+
 def create_argument_list(arguments):
     return [arg(arg=id, annotation=None) for id in arguments]
 
@@ -246,7 +263,7 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        return located_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -359,7 +376,7 @@ class PyAttributeNode(PyComplexNode):
             # given the name, and unescaped expression!
             return [
                 Expr(
-                    simple_call(
+                    located_call(
                         func=Attribute(
                             value=NameX("__TK__output"),
                             attr="output_boolean_attr",
@@ -390,7 +407,7 @@ class PyAttrsNode(PythonNode):
     def generate_ast(self, generator, parent):
         expression = get_fragment_ast(self.expression)
 
-        output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        output = located_call(NameX("__TK__output_attrs"), args=[expression])
         return self.generate_output_ast([output], generator, parent)
 
 
-- 
2.43.0


From bc4981f8155cea0434fff26f3d3a536498b43682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 40/60] fix: errors in processing instructions are located at
 their lines

---
 tonnikala/syntaxes/docparser.py | 9 +++++++--
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 58c76d9..13a0a5f 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -308,9 +308,14 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
-        type_, data = (data.split(None, 1) + ["", ""])[:2]
+        type_, code = (data.split(None, 1) + ["", ""])[:2]
 
-        node = self.doc.createProcessingInstruction(type_, data)
+        # the code is at the end of the data, which is behind the "<?"
+        line, offset = self.getpos()
+        data = StringWithLocation(data, line, offset + 2)
+        code = data[len(data) - len(code):]
+
+        node = self.doc.createProcessingInstruction(type_, code)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
 
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 2a984bc..f9dad61 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -255,7 +255,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            # the whitespace before the code is not a part of it already
+            code = dom_node.nodeValue
+            ir_node = Code(code[:len(code.rstrip())])
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From fa82e564af7e23b1c3626d0d16ebef2c943ef0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 41/60] fix: unknown control attributes without a value are
 located at their element

---
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index f9dad61..3e814a7 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -58,7 +58,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k), node=v or dom_node
+                )
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
-- 
2.43.0


From c52420c5496feee728adfc9edf7a8ddb8c10e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 42/60] fix: text outside of the root element is located at its
 first line that is not blank

---
 tonnikala/syntaxes/docparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 13a0a5f..85bdd44 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -188,9 +188,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 # Special case: just skip adding whitespace to document root,
                 # but raise hell, if trying to add other characters
                 if len(text.strip()) > 0:
+                    blank = text[:len(text) - len(text.lstrip())]
                     self.syntax_error(
                         "Text data outside of root element",
-                        lineno=self.characters_start[0],
+                        lineno=self.characters_start[0] + blank.count("\n"),
                     )
 
                 else:
-- 
2.43.0


From 70629f97e202aa67722489d3a01c74c16016bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 43/60] fix: errors found by the Python compiler are
 TemplateSyntaxErrors

---
 tonnikala/loader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 2e730fc..c535c0c 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -146,6 +146,14 @@ class TemplateInfo(object):
         return self.lnotab.get(line, line)
 
 
+def _compile(code, filename):
+    try:
+        return compile(code, filename, "exec")
+
+    except SyntaxError as e:
+        raise exceptions.TemplateSyntaxError(e.msg, lineno=e.lineno)
+
+
 def _new_globals(runtime):
     return {
         "__TK__runtime": runtime,
@@ -177,6 +185,7 @@ class Loader(object):
             tree = parser_func(filename, string, translatable=self.translatable)
             gen = PythonGenerator(tree)
             code = gen.generate_ast()
+            compiled = _compile(code, filename)
             exc_info = None
         except exceptions.TemplateSyntaxError as e:
             if e.source is None:
@@ -206,7 +215,6 @@ class Loader(object):
         runtime.loader = self
         glob = _new_globals(runtime)
 
-        compiled = compile(code, filename, "exec")
         glob["__TK_template_info__"] = TemplateInfo(filename, gen.lnotab_info())
 
         exec(compiled, glob, glob)
-- 
2.43.0


From dbb742b286e2cc401e4df7af257fdbaafdc6192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 44/60] fix: block names that are not identifiers are
 TemplateSyntaxErrors

---
 tonnikala/languages/python/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 4cd017b..c2f3185 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -492,6 +492,12 @@ class PyBlockNode(PyComplexNode):
         name = self.name
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
+        if not str(name).isidentifier():
+            raise TemplateSyntaxError(
+                "The name of a block is not an identifier: %r" % str(name),
+                lineno=position[0],
+            )
+
         body = get_fragment_ast(
             StringWithLocation(
                 "def %s():pass" % blockfunc_name, position[0], position[1] - 4
-- 
2.43.0


From e72e6549e7b07ed9676920af97b40ff25e2ff4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 45/60] fix: keywords as names of blocks and imports are
 TemplateSyntaxErrors

---
 tonnikala/languages/python/generator.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index c2f3185..5835bda 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import sys
 from ast import (
     Call, FunctionDef, Pass, UnaryOp, iter_child_nodes,
@@ -147,6 +148,13 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
     return tree.body
 
 
+def check_name(name, what, position):
+    if not name.isidentifier() or keyword.iskeyword(name):
+        raise TemplateSyntaxError(
+            "%s is not a valid name: %r" % (what, name), lineno=position[0]
+        )
+
+
 def gen_name(typename=None):
     global name_counter
     name_counter += 1
@@ -335,8 +343,10 @@ class PyImportNode(PythonNode):
         super(PyImportNode, self).__init__()
         self.href = str(href)
         self.alias = str(alias)
+        self.position = getattr(alias, "position", (1, 0))
 
     def generate_ast(self, generator, parent):
+        check_name(self.alias, "The alias of an import", self.position)
         node = Assign(
             targets=[NameX(str(self.alias), store=True)],
             value=simple_call(
@@ -492,12 +502,7 @@ class PyBlockNode(PyComplexNode):
         name = self.name
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
-        if not str(name).isidentifier():
-            raise TemplateSyntaxError(
-                "The name of a block is not an identifier: %r" % str(name),
-                lineno=position[0],
-            )
-
+        check_name(str(name), "The name of a block", position)
         body = get_fragment_ast(
             StringWithLocation(
                 "def %s():pass" % blockfunc_name, position[0], position[1] - 4
-- 
2.43.0


From 49cbaed75da6a9b78b77020783405fb367f02550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 46/60] fix: source code with null characters or surrogates is
 a TemplateSyntaxError

---
 tonnikala/languages/python/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 5835bda..ef01547 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -137,9 +137,13 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
     except SyntaxError as e:
-        lineno = e.lineno
+        # there is no line if there are null characters
+        lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
+    except ValueError as e:
+        # surrogates
+        t = TemplateSyntaxError(str(e), lineno=position[0])
 
     if tree is None:
         raise t
-- 
2.43.0


From ecf31477ae799c10f4215e868daea16d22ba452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 47/60] fix: text that the tokenizer cannot decode is a
 TemplateSyntaxError

---
 tonnikala/languages/python/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 25f7fd3..f77330f 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -54,10 +54,10 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except (TokenError, SyntaxError) as e:
+    except (TokenError, SyntaxError, UnicodeError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
-        raise TemplateSyntaxError(e.args[0], node=s)
+        raise TemplateSyntaxError(str(e.args[0]), node=s)
 
 
 braces = {
-- 
2.43.0


From f896b6a9d4c80269226d2483592458381106aad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:12 +0000
Subject: [PATCH 48/60] fix: mandatory attributes without a value are missing

---
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 3e814a7..d94a941 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -116,7 +116,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         BaseDOMIRGenerator.syntax_error(self, message=message, lineno=lineno)
 
     def grab_mandatory_attribute(self, dom_node, name):
-        if not dom_node.hasAttribute(name):
+        if dom_node.getAttributeNode(name) is None or (
+            dom_node.getAttribute(name) is None
+        ):
             self.syntax_error(
                 message="<{}> does not have the required attribute '{}'".format(
                     dom_node.name, name
-- 
2.43.0


From 62f33828fc46a4aa9b4a5c2ceba57f4acc741291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 49/60] fix: contents of an import are a TemplateSyntaxError

---
 tonnikala/ir/nodes.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index 7a7e4a9..d4d420b 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -273,6 +273,25 @@ class Import(BaseNode):
 
         self.href = href
         self.alias = alias
+        self.contents = []
+
+    def add_child(self, child):
+        """
+        Comments and whitespace are discarded, as within Extends; there
+        is no use for anything else.
+        """
+
+        if isinstance(child, (Comment, EscapedComment)):
+            return
+
+        if isinstance(child, Text) and not child.text.strip():
+            return
+
+        self.contents.append(child)
+
+    def validate(self, validator):
+        for child in self.contents:
+            validator.syntax_error("No contents allowed within an import", node=child)
 
     def __str__(self):  # pragma: no cover
         return ", ".join([self.href, self.alias])
-- 
2.43.0


From 5b9357826917caef5c30cec9fa6a0e0d1151df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 50/60] fix: errors about the contents of extends are located

---
 tonnikala/ir/generate.py        | 3 +++
 tonnikala/syntaxes/docparser.py | 1 +
 tonnikala/syntaxes/tonnikala.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 258045b..263aa06 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -188,6 +188,9 @@ class BaseDOMIRGenerator(BaseIRGenerator):
         for dom_node in children:
             node = self.generate_ir_node(dom_node)
             if node:
+                if node.position[0] is None:
+                    node.position = getattr(dom_node, "position", (1, 0))
+
                 ir_node.add_child(node)
 
         self.exit_node(ir_node)
diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 85bdd44..77323ea 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -366,6 +366,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         try:
             dt = dom.parseString("<!%s><html/>" % decl).doctype
+            dt.position = self.getpos()
             self.elements[-1].appendChild(dt)
         except Exception as e:
             self.syntax_error("Invalid declaration <!%s>: %s" % (decl, e))
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index d94a941..d73e002 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -199,6 +199,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         content = self.grab_and_remove_control_attr(dom_node, "content")
         if content:
             overridden_children = [Expression(content)]
+            overridden_children[0].position = getattr(
+                content, "position", dom_node.position
+            )
 
         if self.is_control_name(dom_node.tagName, "replace"):
             replace = self.grab_mandatory_attribute(dom_node, "value")
-- 
2.43.0


From 81d3509796b50c3b4f73475cd4cc6242df88e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 51/60] fix: default arguments of top-level defs may refer to
 the context

---
 tonnikala/languages/python/generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index ef01547..0c28beb 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -735,6 +735,18 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        # the default arguments are evaluated when the defs are bound
+        default_variables = set()
+        for i in generator.top_defs:
+            for e in i.args.defaults + i.args.kw_defaults:
+                if e is not None:
+                    fv_info = FreeVarFinder.for_ast(e)
+                    default_variables.update(fv_info.get_free_variables())
+
+        for i in sorted(default_variables & free_variables):
+            code += '    if "%s" in __TK__context:\n' % i
+            code += '        %s = __TK__context["%s"]\n' % (i, i)
+
         code += "    raise\n"  # a placeholder
 
         if extended:
-- 
2.43.0


From 6939bcc0badd32495ee17873f2273f0de9c661ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:08 +0000
Subject: [PATCH 52/60] fix: errors about text within extends are located at
 the text that is not blank

---
 tonnikala/ir/generate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tonnikala/ir/generate.py b/tonnikala/ir/generate.py
index 263aa06..d5517f3 100644
--- a/tonnikala/ir/generate.py
+++ b/tonnikala/ir/generate.py
@@ -14,6 +14,7 @@ from .nodes import (
     EmptyAttrVal,
 )
 
+from ..helpers import StringWithLocation
 from ..runtime.exceptions import TemplateSyntaxError
 
 html5_empty_tags = frozenset(
@@ -181,6 +182,13 @@ class BaseDOMIRGenerator(BaseIRGenerator):
     def exit_node(self, ir_node):
         pass
 
+    def get_position(self, dom_node):
+        text = dom_node.nodeValue
+        if isinstance(text, StringWithLocation):
+            return text[len(text) - len(text.lstrip()):].position
+
+        return getattr(dom_node, "position", (1, 0))
+
     def add_children(self, children, ir_node):
         self.push_state()
         self.enter_node(ir_node)
@@ -189,7 +197,7 @@ class BaseDOMIRGenerator(BaseIRGenerator):
             node = self.generate_ir_node(dom_node)
             if node:
                 if node.position[0] is None:
-                    node.position = getattr(dom_node, "position", (1, 0))
+                    node.position = self.get_position(dom_node)
 
                 ir_node.add_child(node)
 
-- 
2.43.0


From eb85e90c7d75fa2c7405a0a54d80495e9ff00330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 53/60] fix: null characters and surrogates may follow an
 expression

---
 tonnikala/languages/python/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index f77330f..252ef68 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -13,6 +13,10 @@ class PythonExpression(InterpolatedExpression):
 identifier_match = re.compile(r"[^\d\W]\w*", re.UNICODE)
 expr_continuation = re.compile(r"[([]|(\.[^\d\W]\w*)", re.UNICODE)
 
+# the tokenizer refuses the whole line because of these, even if they
+# are in the text that follows the expression
+undecodable = re.compile("[\0\ud800-\udfff]")
+
 
 class TokenReadLine(object):
     def __init__(self, string, pos):
@@ -24,6 +28,7 @@ class TokenReadLine(object):
 
     def readline(self):
         for l in self.io:
+            l = undecodable.sub("?", l)
             self.last_line = l
             yield l
 
-- 
2.43.0


From f32299ffcb7f48ffac55ebd56c881f854edb5552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 54/60] fix: a Chameleon replace element without a value is a
 TemplateSyntaxError

---
 tonnikala/syntaxes/chameleon.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/chameleon.py b/tonnikala/syntaxes/chameleon.py
index cfba5c2..7f6f399 100644
--- a/tonnikala/syntaxes/chameleon.py
+++ b/tonnikala/syntaxes/chameleon.py
@@ -92,9 +92,16 @@ class ChameleonIRGenerator(BaseDOMIRGenerator):
             overridden_children = [Expression(content)]
 
         if self.is_control_name(dom_node.tagName, "replace"):
-            replace = dom_node.getAttribute("value")
+            replace = None
+            if dom_node.getAttributeNode("value") is not None:
+                replace = dom_node.getAttribute("value")
             if replace is None:
-                raise ValueError("No value attribute specified for replace tag")
+                self.syntax_error(
+                    "<{}> does not have the required attribute 'value'".format(
+                        dom_node.tagName
+                    ),
+                    dom_node.position[0],
+                )
         else:
             replace = self.grab_and_remove_control_attr(dom_node, "replace")
 
-- 
2.43.0


From d8eb0d1d40958895416cd98c633a121fa26dc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:35 +0000
Subject: [PATCH 55/60] fix: importing _buffer fails when its type cannot be
 added

---
 tonnikala/runtime/_buffer.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 0083e73..6183d1e 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -348,11 +348,17 @@ PyInit__buffer(void)
     if (m == NULL)
         return ERROR_RET;
 
-    if (PyType_Ready(&buffer_BufferType) < 0)
+    if (PyType_Ready(&buffer_BufferType) < 0) {
+        Py_DECREF(m);
         return ERROR_RET;
+    }
 
     Py_INCREF(&buffer_BufferType);
-    PyModule_AddObject(m, "Buffer", (PyObject *)&buffer_BufferType);
+    if (PyModule_AddObject(m, "Buffer", (PyObject *)&buffer_BufferType) < 0) {
+        Py_DECREF(&buffer_BufferType);
+        Py_DECREF(m);
+        return ERROR_RET;
+    }
 
     struct Buffer_module_state *st = GETSTATE(m);
 
-- 
2.43.0


From 1c774ae134632a45a6aa582849e525b19c8e92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 56/60] fix: the list of a C buffer cannot be replaced or
 deleted

---
 tonnikala/runtime/_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 6183d1e..0a808ca 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -254,7 +254,7 @@ exit:
 }
 
 static PyMemberDef Buffer_members[] = {
-    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), 0,
+    {"buffer", T_OBJECT_EX, offsetof(Buffer, buffer_list), READONLY,
      "The buffer list"},
     {NULL}  /* Sentinel */
 };
-- 
2.43.0


From 9aadb96497d519aae1720a92eecece2aa8be3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 57/60] fix: calling a C buffer with no keyword arguments is
 not an error

---
 tonnikala/runtime/_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index 0a808ca..d1aeef2 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -118,7 +118,7 @@ _do_append(Buffer *self, PyObject *args) {
 static PyObject *
 Buffer_call(PyObject *self, PyObject *args, PyObject *other)
 {
-    if (other != NULL) {
+    if (other != NULL && PyDict_Size(other) != 0) {
         PyErr_SetString(PyExc_TypeError,
             "__call__ does not take keyword arguments");
 
-- 
2.43.0


From e4f059cbe15e68a4dfb67553eb54a7eb9c64132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:48 +0000
Subject: [PATCH 58/60] fix: the old escape function is released after the new
 one is set

---
 tonnikala/runtime/_buffer.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tonnikala/runtime/_buffer.c b/tonnikala/runtime/_buffer.c
index d1aeef2..cce828e 100644
--- a/tonnikala/runtime/_buffer.c
+++ b/tonnikala/runtime/_buffer.c
@@ -241,10 +241,9 @@ _set_escape_method(PyObject *self, PyObject *args, PyObject *kwargs) {
 
     PyObject *old = GETSTATE(self)->escape;
 
-    Py_DECREF(old);
     Py_INCREF(escape);
-
     GETSTATE(self)->escape = escape;
+    Py_DECREF(old);
 
     Py_INCREF(Py_None);
     return Py_None;
-- 
2.43.0


From b013d85d419a2c3ca1bfd02f8e905b86e79a1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 59/60] fix: the Python buffer evaluates the parts of an
 attribute like the C buffer

---
 tonnikala/runtime/python.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/tonnikala/runtime/python.py b/tonnikala/runtime/python.py
index fa1fd43..2821c0e 100644
--- a/tonnikala/runtime/python.py
+++ b/tonnikala/runtime/python.py
@@ -20,17 +20,12 @@ class _TKPythonBufferImpl(object):
         self.output = do_output
 
         def output_boolean_attr(name, value):
-            name = str(name)
-            t = type(value)
-            if t in (bool, NoneType):
-                value and do_output(" " + name + '="' + name + '"')
-
-                # skip on false, None
+            # skip on false, None
+            if value is None or value is False:
                 return
 
-            do_output(" " + name + '="')
-            do_output(escape(value))
-            do_output('"')
+            value = name if value is True else escape(value)
+            do_output(" ", name, '="', value, '"')
 
         self.output_boolean_attr = output_boolean_attr
 
-- 
2.43.0


From f1c1c1d3406a095ef17ecd671d10098935831d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:31 +0000
Subject: [PATCH 60/60] fix: JavaScript contexts may have any variables and no
 prototype

The own properties of a context were looked up with the context's
hasOwnProperty, which fails if a variable has that name or if the context
was created without a prototype.
---
 tonnikala/runtime/javascript.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..5e5172e 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty;
 
     function Markup(s) {
         this.s = s;
@@ -154,13 +155,13 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0

