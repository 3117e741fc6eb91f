#!/usr/bin/env python3-vt
"""Writes /verif/DESIGN.md."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
HOW = {
    "C01": "A context value is a symbolic string, placed in each interpolation position of a template that is compiled and rendered by the real code. Oracle: the hand written escape of the text (`&` `<` `>` `\"` `'`, once), compared as a symbolic string. Tests use a few strings with a few of the characters; double escaping or a missed character in one position is invisible to them.",
    "C02": "The template's static text is symbolic: parser, interpolation scanner, generator and renderer run on it. Oracle: a small independent reader of HTML text (entities, void elements, comments) written in the harness.",
    "C03": "The text is symbolic and goes through `partition_template`/`parse_unenclosed_expression` and whole templates. Oracle: a regular grammar written down from the documentation, evaluated over the same symbolic text.",
    "C04": "The expression text is symbolic. Oracle: an independent bracket matcher for Python's lexical structure (strings with prefixes, comments, f-strings with nested fields).",
    "C05": "`JsLexer` and `parse_expression` run on symbolic text; tiling is asserted directly, the extents against an independent scanner of JavaScript's lexical grammar.",
    "C06": "The shape of the template (which directives, nesting, spelling) is a choice variable, outcomes of conditions and lengths of iterables are symbolic at every evaluation. Oracle: an evaluator of the documented nesting (def, for, if, vars/with, replace, content, strip) in the harness.",
    "C07": "Kinds and values of attributes are symbolic. Oracle: the rule in the statement.",
    "C08": "The same pieces are rendered by one template and separately; values are symbolic, and the order in which expressions are evaluated is compared as well. Constant conditions are compared with the same value in a variable.",
    "C09": "Programs are composed by choice variables of binding forms, scopes, expressions and positions. Oracle: the same program as a Python module with closures, run in the same exploration: outputs and exceptions (by type and name) must agree.",
    "C10": "Chains of templates whose definitions are choice variables, resolved by an in-memory loader. Oracle: method resolution from the most derived template, in the harness.",
    "C11": "Importing and imported templates as choices. Oracle: the namespaces by the statement.",
    "C12": "The operating system's files, modification times and the clock are a model with symbolic times (`symx/vfs.py`); histories of steps are choice variables, including a change between any two file operations of the loader. Oracle: the content that a coherent cache may return. This reaches races that no test can time.",
    "C13": "Which files exist, the search paths and the name are symbolic. Oracle: first match in order.",
    "C14": "Gaps in the template before the failing construct hold symbolic text (any of it may be a newline). Oracle: the count of newlines before the construct as a z3 term, against the line in the exception and in the traceback's frames.",
    "C15": "Holes in skeletons are symbolic; any exception but TemplateSyntaxError is a failure, exceeding the step budget is non-termination, the line must be within the text.",
    "C16": "Texts are symbolic; the real extractor and the real renderer with a recording `gettext` run on the same template; the sets of messages are compared as terms.",
    "C17": "See *C* above. Per operation and per sequence: no invalid access, every reference count balanced after destruction (for symbolic initial counts), the result equal to the model's and to the Python buffer's, errors reported with an exception set, for any one failing allocation and any behaviour of user code, including reentrance.",
    "C18": "See *JavaScript* above: call sequences with symbolic kinds of arguments and symbolic text. Oracle: the statement.",
    "C19": "Templates are composed of constructs by choice variables; the real generator makes JavaScript, which is interpreted, the Python target renders the same template, both with the same symbolic context; the outputs are compared as terms.",
    "C20": "Histories of renders with symbolic contexts, nested and interleaved. Oracle: each render's output equals that of a fresh load and render with its own context; the mapping's items are compared before and after.",
    "C21": "Settings are symbolic strings and kinds; `includeme` and the renderer run against a recording configurator (replays: the real one). Oracle: the documented meaning of each setting.",
    "C22": "The tal: template and its py: counterpart are compiled and rendered in the same exploration with the same symbolic context.",
}
p = open(os.path.join(HERE, "tools", "design_head.md")).read()
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
checks = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out = [p, "## Properties\n"]
for l in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    out.append("### %s %s\n" % (i, d["title"]))
    out.append(d["statement"] + "\n")
    if i in na:
        out.append("**Not applicable:** " + na[i] + "\n")
        continue
    m = importlib.import_module("props." + i.lower())
    out.append("*Decided by:* " + HOW[i] + "\n")
    out.append("*Bounds:* " + m.BOUNDS + ".\n")
    out.append("*Outside:* " + m.OUTSIDE + ".\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumes:* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    ev = os.path.join(HERE, "tools", "costs.json")
    if os.path.exists(ev) and i in json.load(open(ev)):
        out.append("*Cost (quick, 8 cores):* %s.\n" % json.load(open(ev))[i])
    fx = [f for f in kf["fixed"] if "property=%s " % i in f]
    if fx:
        out.append("*Defects found and repaired:* " + "; ".join("%s (%s)" % (f.split(" ", 3)[3], f.split(" ")[2]) for f in fx) + ".\n")
    for f in kf["findings"]:
        if f["property"] == i:
            out.append("*Known finding* `%s`: %s. Not repaired: the parser hands on decoded text only, and the positions within it would have to be carried through every layer.\n" % (f["id"], f["what"]))
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
out.append("## Seeded bugs\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
det = json.load(open(os.path.join(HERE, "tools", "detected.json"))) if os.path.exists(os.path.join(HERE, "tools", "detected.json")) else {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), det.get(n, "?")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
