#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["Loader.load_string(...).render(ctx)"],
                          "state": state or [], "hook_needed": None}})

prop("C01", "Interpolated values are HTML-escaped exactly once",
     "Whatever string a context value holds, rendering it through any interpolation position (text, whole or mixed attribute value, py:content, py:replace, py:attrs value, py:def argument, translated text) of the Python target outputs it with each of & < > \" ' replaced by its HTML entity exactly once, and changes no other byte of the output. Values that are Markup, have __html__, or are wrapped in literal() are output verbatim, and non-string values are output as the escape of their str().",
     ["inputs"], "every value string over full Unicode up to the length bound, in every interpolation position",
     "The tests escape a handful of fixed strings in one or two positions; escaping is a for-all-strings, for-all-positions guarantee.",
     ["tonnikala/languages/python/generator.py", "tonnikala/runtime/python.py", "tonnikala/loader.py", "tonnikala/expr.py"],
     [("PyExpressionNode wraps expressions in __TK__escape", "languages/python/generator.py"),
      ("output_boolean_attr escapes attribute values", "runtime/python.py"),
      ("literal() elimination", "languages/python/generator.py coalesce_outputs.check")])

prop("C02", "Static template content is reproduced faithfully",
     "Static text, attribute values, comments, script/style content, doctype and empty elements of a template reach the output unchanged in meaning: text and attribute values are output as the escape of their entity-decoded form, comments and script/style content verbatim, comments starting with ! are dropped, attribute order of static attributes and all whitespace are preserved. Only $-interpolation and py: directives are rewritten.",
     ["inputs"], "every static text up to the length bound in every static position",
     "Tests compare a few fixed documents; corruption depends on particular characters at particular places (entities, quotes, dashes, newlines, CDATA).",
     ["tonnikala/syntaxes/docparser.py", "tonnikala/syntaxes/tonnikala.py", "tonnikala/ir/generate.py", "tonnikala/ir/nodes.py", "tonnikala/helpers/__init__.py"],
     [("handle_entityref/handle_charref decoding", "syntaxes/docparser.py"), ("Text.escaped / is_cdata", "ir/nodes.py"),
      ("flatten_element_nodes, merge_text_nodes", "ir/generate.py")])

prop("C03", "Dollar signs are split into text and expressions as documented",
     "In text and attribute values, $$ yields a literal $, $ followed by an ASCII letter, an underscore or { starts an expression, and every other $ is literal text; concatenating the literal pieces and the expression sources in order reproduces the input. An unbraced expression consists of an identifier and the longest run of .name, (...) and [...] parts directly attached to it.",
     ["inputs"], "every text up to the length bound over an alphabet with $, braces, brackets, identifier characters, dots, spaces and newlines",
     "The tests cover about ten hand-picked texts; adjacency of $, $$, names and trailing dots is combinatorial.",
     ["tonnikala/expr.py", "tonnikala/languages/python/__init__.py"],
     [("handle_text_node / _strip_dollars_fast", "expr.py"), ("parse_unenclosed_expression", "languages/python/__init__.py")],
     ["tonnikala.expr.handle_text_node", "Loader.load_string(...).render(ctx)"])

prop("C04", "A braced or bracketed Python expression ends at its matching bracket",
     "For ${...} the expression extends exactly to the } that closes the opening brace, ignoring braces inside nested brackets, strings and comments, and for $name(...) / $name[...] exactly to the closing bracket; text after it is template text. If there is no such closing bracket, or brackets are mismatched, TemplateSyntaxError is raised and no other exception.",
     ["inputs"], "every expression source up to the length bound over an alphabet with quotes, brackets, backslash, #, newline and identifier characters",
     "The tests have a few braced expressions; string prefixes, escapes, nesting and truncation at every point cannot be enumerated by hand.",
     ["tonnikala/languages/python/__init__.py", "tonnikala/expr.py"],
     [("parse_brace_enclosed_expression, gen_tokens", "languages/python/__init__.py")],
     ["tonnikala.languages.python.parse_expression"])

prop("C05", "The JavaScript lexer tiles its input and finds expression ends",
     "Lexing any JavaScript text from any start offset yields tokens whose concatenation is exactly the remaining text, terminates, and never yields an empty token. A JavaScript template expression ${...}, $name(...) or $name[...] extends exactly to its matching bracket, with brackets inside strings, comments and regular-expression literals ignored.",
     ["inputs"], "every source text up to the length bound over the lexer's significant characters",
     "The tests lex a few sample programs; the division/regex ambiguity, escapes and unterminated literals are combinatorial.",
     ["tonnikala/languages/javascript/jslex.py", "tonnikala/languages/javascript/__init__.py"],
     [("Lexer.lex with div/reg states", "languages/javascript/jslex.py"), ("parse_expression", "languages/javascript/__init__.py")],
     ["tonnikala.languages.javascript.jslex.JsLexer.lex", "tonnikala.languages.javascript.parse_expression"])

prop("C06", "Control directives have their documented meaning in every combination",
     "For every nesting and combination of py:if, py:for, py:def, py:with/py:vars, py:strip, py:content and py:replace (as attributes and, where available, as elements), with every outcome of their conditions and every length of their iterables, the rendered output equals what the directives' documented meaning gives when applied outermost to innermost as block, if, for, def, with, then replace/content/strip. A false condition suppresses the whole element including evaluation of its contents, and both the attribute and element spelling give the same output.",
     ["programs", "inputs"], "every composition of the directives up to the nesting bound, with symbolic condition outcomes, values and iterable lengths",
     "Tests exercise directives one or two at a time with fixed data; the interaction of several on one element or nested elements is untested.",
     ["tonnikala/syntaxes/tonnikala.py", "tonnikala/ir/generate.py", "tonnikala/languages/base.py", "tonnikala/languages/python/generator.py"],
     [("create_control_nodes / generate_element_node", "syntaxes/tonnikala.py"), ("PyIfNode, PyForNode, PyWithNode, PyDefineNode", "languages/python/generator.py"),
      ("strip guards", "ir/generate.py flatten_element_nodes_on")])

prop("C07", "Dynamic attributes follow the boolean and value rules",
     "An attribute whose value is a single expression is omitted when the expression is None or False, rendered as name=\"name\" when it is True, and otherwise as name=\"escaped str(value)\"; an attribute mixing text and expressions is always rendered with the concatenation of its parts. py:attrs renders each name/value pair of a mapping or of an iterable of pairs by the same rule, in iteration order, and renders nothing for a false value.",
     ["inputs"], "every value kind (None, booleans, ints, strings, Markup, objects) and every mix of text and expressions",
     "The tests use a few literal values; values like 0, '' or Markup, names that are Markup and mixed parts are not covered.",
     ["tonnikala/languages/python/generator.py", "tonnikala/runtime/python.py", "tonnikala/runtime/_buffer.c"],
     [("PyAttributeNode.generate_ast", "languages/python/generator.py"), ("output_boolean_attr / output_attrs", "runtime/python.py")])

prop("C08", "Compile-time optimizations never change the output",
     "Merging adjacent output, splitting long runs of output, dropping literal() wrappers and folding constant conditions give the same rendered output as evaluating every piece separately in order, whatever the number and kinds of pieces. In particular a condition written as a constant behaves exactly like the same value supplied through a variable.",
     ["programs", "inputs"], "every sequence of static and dynamic pieces up to the bound including lengths around the coalescing limit, and every constant condition of the grammar up to the depth bound",
     "Tests check one long template and one or two literal() uses; the coalescing boundary, order and duplicate handling need all counts.",
     ["tonnikala/languages/python/generator.py", "tonnikala/ir/generate.py"],
     [("coalesce_outputs / coalesce_strings", "languages/python/generator.py"), ("static_expr_to_bool", "languages/python/generator.py"),
      ("merge_text_nodes", "ir/generate.py")])

prop("C09", "Names in expressions resolve by Python scoping over the context",
     "Every name used in an expression resolves by Python's scoping rules, where the template body, each def, block, py:with element, lambda and comprehension is a scope and py:for targets and <?python?> assignments bind in the scope they are in; a name no template scope binds resolves to the template's own defs, blocks and imports, else to the render context, else to a Python builtin, and one found nowhere raises NameError only if it is evaluated. Context variables shadow builtins, and bindings made in one render never leak into another render.",
     ["programs", "inputs"], "every expression of the scoping grammar up to the depth bound with every subset of names present in the context",
     "Tests use simple names; free-variable analysis has to be right for every mix of lambda, comprehension, default argument, nested def and shadowing.",
     ["tonnikala/languages/python/astalyzer.py", "tonnikala/languages/python/generator.py", "tonnikala/loader.py"],
     [("FreeVarFinder", "languages/python/astalyzer.py"), ("generated binder function", "languages/python/generator.py PyRootNode"),
      ("make_template_context", "loader.py")])

prop("C10", "Inheritance renders the most derived block or def at every level",
     "Rendering a template that extends a chain of base templates gives the root template's document with every block and top-level def taken from the most derived template that defines it, wherever it is used in the chain, and base definitions used where no override exists. Rendering the base directly is unaffected by any child, and each block can be rendered on its own by name.",
     ["programs", "inputs"], "every assignment of block/def definitions over chains up to the length bound, and any context values",
     "Tests have a few two-level chains; the override matrix over levels, defs calling blocks and vice versa is not covered.",
     ["tonnikala/languages/python/generator.py", "tonnikala/runtime/python.py", "tonnikala/ir/nodes.py"],
     [("bind / bindblock decorators", "runtime/python.py"), ("binder chaining", "languages/python/generator.py PyRootNode")])

prop("C11", "Imports expose exactly the imported template's own definitions",
     "py:import binds the alias to an object whose attributes are the defs and blocks of the imported template, evaluated against the importing render's original context, and reading any other attribute raises AttributeError. The imported template's names never override or become visible as names of the importing template, and the context is left unchanged.",
     ["programs", "inputs"], "every subset of names shared between importer, importee and context up to the bound",
     "Tests import one def; collisions between names of the two templates and the context are not covered.",
     ["tonnikala/runtime/python.py", "tonnikala/languages/python/generator.py"],
     [("TonnikalaRuntime.import_defs", "runtime/python.py"), ("PyImportNode", "languages/python/generator.py")])

prop("C12", "The file loader's cache is coherent with the files",
     "With reload enabled, once more than the check interval has passed since the previous check, load() returns a template compiled from the file's current content whenever that file, or any cached file it may depend on, was modified with a newer modification time; a deleted file is forgotten (loading its name raises OSError, unless the name resolves elsewhere), and it never makes loading another template fail. Without reload, or within the interval, a cached template is returned unchanged as the same object and its file is not read again; a name that resolves nowhere raises OSError with ENOENT.",
     ["histories", "schedules", "fault_sequences"], "every history of loads, modifications, deletions and clock advances up to the length bound, with symbolic clock and modification times, including a modification during a load",
     "Tests do one modify-and-reload with real sleeps; orderings of clock, mtimes and deletions, and a write racing with a load, are not reachable by sampling.",
     ["tonnikala/loader.py"],
     [("FileLoader._maybe_purge_cache", "loader.py"), ("FileLoader.load", "loader.py")],
     ["FileLoader.load"], [{"name": "cache", "meaning": "compiled templates by name", "where": "loader.py FileLoader"},
                           {"name": "_last_reload_check", "meaning": "time of the previous check", "where": "loader.py FileLoader"}])

prop("C13", "Template names resolve along the search paths in order",
     "A relative name resolves to the first search path, in the order added, that contains it; an existing absolute name resolves to itself; a name found nowhere is reported as not found. The Pyramid loader resolves package-relative and plain search paths and package:name asset specs by the same first-match rule.",
     ["configurations", "inputs"], "every list of search paths up to the bound and every set of existing files",
     "Tests use one or two real directories.",
     ["tonnikala/loader.py", "tonnikala/pyramid/__init__.py"],
     [("FileLoader.resolve / add_path", "loader.py"), ("PyramidTonnikalaLoader.resolve", "pyramid/__init__.py")],
     ["FileLoader.resolve", "PyramidTonnikalaLoader.resolve"])

prop("C14", "Errors are located at the template line that caused them",
     "A TemplateSyntaxError carries the file name and the 1-based line of the offending construct in the template source, and an exception raised while rendering propagates with its original type and value and a traceback frame with the template's file name and the line of the failing expression. This holds whatever text, newlines, attributes or elements precede it.",
     ["inputs", "programs"], "every arrangement of newlines and text up to the bound before and inside the failing construct, for each construct kind",
     "Tests check line numbers for a few fixed templates; positions depend on newlines in every preceding construct.",
     ["tonnikala/helpers/__init__.py", "tonnikala/syntaxes/docparser.py", "tonnikala/languages/python/generator.py", "tonnikala/runtime/debug.py", "tonnikala/runtime/exceptions.py"],
     [("StringWithLocation / calculate_position", "helpers/__init__.py"), ("find_attr_positions", "syntaxes/docparser.py"),
      ("adjust_locations", "languages/python/generator.py"), ("translate_exception / fake_exc_info", "runtime/debug.py")])

prop("C15", "Any template source either compiles or raises TemplateSyntaxError",
     "Loading any text as a template either succeeds or raises TemplateSyntaxError carrying a line number; it never raises another exception type and never fails to terminate.",
     ["inputs"], "every source up to the length bound over markup-significant characters, inside every skeleton (text, tag, attribute, declaration, comment, processing instruction, directive values)",
     "Tests feed about a dozen malformed templates; malformed input space is unbounded.",
     ["tonnikala/syntaxes/docparser.py", "tonnikala/syntaxes/tonnikala.py", "tonnikala/languages/python/__init__.py", "tonnikala/languages/python/generator.py"],
     [("TonnikalaHTMLParser handlers", "syntaxes/docparser.py"), ("get_fragment_ast error translation", "languages/python/generator.py")],
     ["Loader.load_string"])

prop("C16", "Message extraction and runtime translation agree",
     "With translation enabled, the set of message ids extracted from a template equals the set of strings the rendered template passes to gettext, for text and for title, alt, placeholder, value and caption attributes. Message ids carry no leading or trailing whitespace, that whitespace is kept in the output around the translation, translations are HTML-escaped, script and style content is never translated, and with identity translation the output equals the untranslated rendering.",
     ["inputs"], "every text and attribute value up to the length bound, and every translation string",
     "Tests extract one or two fixed messages.",
     ["tonnikala/i18n/__init__.py", "tonnikala/expr.py", "tonnikala/syntaxes/tonnikala.py", "tonnikala/languages/python/generator.py"],
     [("TonnikalaExtractor", "i18n/__init__.py"), ("partition_translatable_text", "expr.py"), ("PyTranslatableOutputNode", "languages/python/generator.py")],
     ["tonnikala.i18n.TonnikalaExtractor", "Loader(translatable=True).load_string(...).render(ctx)"])

prop("C17", "The C speed-up buffer is memory-safe and matches the Python buffer",
     "For every sequence of construction, output, attribute and join operations, with every kind of argument and a failure injected at any allocation or callback, the C buffer touches no invalid memory and never over-releases an object, and destroying it releases everything it acquired. Where no failure is injected it joins to the same text, or raises the same kind of error, as the pure-Python buffer.",
     ["inputs", "fault_sequences"], "every operation sequence up to the bound over all argument kinds, every allocation-failure point",
     "The tests run only successful operations and cannot observe reference counts or allocation failures.",
     ["tonnikala/runtime/_buffer.c", "tonnikala/runtime/python.py"],
     [("Buffer_new/_do_append/Buffer_output_boolean_attr/Buffer_dealloc", "runtime/_buffer.c"), ("_TKPythonBufferImpl", "runtime/python.py")],
     ["tonnikala.runtime.python.Buffer"])

prop("C18", "The JavaScript runtime escapes and renders attributes correctly",
     "The JavaScript runtime escapes each of & < > \" ' exactly once in every non-markup value, outputs Markup and buffers verbatim, omits attributes whose value is null, undefined or false, renders true as name=\"name\", and concatenates output in call order. Context lookup prefers the context's own properties and adding to the context never overwrites an existing one.",
     ["inputs"], "every string up to the length bound and every argument kind and call sequence up to the bound",
     "The JS tests render a few templates with fixed values.",
     ["tonnikala/runtime/javascript.js"],
     [("doEscape, Buffer, outputAttrs, addToContext, bindFromContext", "runtime/javascript.js")],
     ["the object returned by the runtime module factory"])

prop("C19", "JavaScript templates render like the equivalent Python templates",
     "A template using only constructs common to both targets (text, attributes, if, for over a list, def, block, strip, content, replace, with, interpolation) renders to the same output by the JavaScript target as by the Python target for the same context values.",
     ["programs", "inputs"], "every composition of the constructs up to the bound with symbolic strings and conditions",
     "The JS tests assert a few fixed outputs and never compare the two targets.",
     ["tonnikala/languages/javascript/generator.py", "tonnikala/syntaxes/tonnikala.py", "tonnikala/runtime/javascript.js"],
     [("Js*Node generators", "languages/javascript/generator.py")],
     ["JSLoader.load_string + runtime/javascript.js", "Loader.load_string(...).render"])

prop("C20", "Renders are independent and leave their inputs unchanged",
     "Rendering is a function of template and context: rendering the same template any number of times, interleaved with renders of other contexts, gives each time the output for its own context. The caller's context mapping is not modified, and a failed render leaves later renders unaffected.",
     ["histories", "inputs"], "every sequence of renders up to the bound with symbolic contexts, including failing ones",
     "Tests render each template once.",
     ["tonnikala/loader.py", "tonnikala/languages/python/generator.py", "tonnikala/runtime/python.py"],
     [("make_template_context copies", "loader.py"), ("binder per render", "languages/python/generator.py")])

prop("C21", "Pyramid settings and directives configure the renderer as documented",
     "Including the package configures extensions, search paths, reload and translation from tonnikala.extensions, tonnikala.search_paths, tonnikala.reload (falling back to pyramid.reload_templates only when unset) and tonnikala.l10n, given as strings or lists. Rendering through the renderer merges the value mapping over the system values, rejects a non-mapping with ValueError, and returns a plain string.",
     ["configurations", "inputs"], "every combination of present/absent settings and values",
     "Tests use one or two settings combinations.",
     ["tonnikala/pyramid/__init__.py"],
     [("includeme", "pyramid/__init__.py"), ("TonnikalaTemplateRenderer.__call__", "pyramid/__init__.py")],
     ["tonnikala.pyramid.includeme", "TonnikalaTemplateRenderer"])

prop("C22", "The Chameleon syntax behaves like its py: equivalent",
     "A Chameleon template using tal:condition, tal:repeat, tal:content, tal:replace, tal:omit-tag and tal:attrs renders exactly as the template with the corresponding py:if, py:for, py:content, py:replace, py:strip and py:attrs, for every context.",
     ["programs", "inputs"], "every combination of the attributes on nested elements up to the bound, with symbolic values",
     "There is one Chameleon test module with fixed inputs; equivalence of two front ends is a for-all statement.",
     ["tonnikala/syntaxes/chameleon.py", "tonnikala/syntaxes/tonnikala.py"],
     [("ChameleonIRGenerator", "syntaxes/chameleon.py")],
     ["Loader(syntax='chameleon').load_string(...).render(ctx)"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
