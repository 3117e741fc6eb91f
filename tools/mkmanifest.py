#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the harnesses that exist."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    "C17": "symbolic execution of clang's LLVM IR of the real _buffer.c (own interpreter, checked memory, model of the CPython API; z3 decides branches, reference counts and texts), plus symbolic execution of the Python buffer",
    "C18": "symbolic execution of the real javascript.js (own interpreter over its syntax tree), z3 decides each path",
    "C19": "symbolic execution of the generated JavaScript and of the Python target on the same symbolic context, z3 decides equality of the outputs",
}
DEF = "symbolic execution of the real Python source (instrumented AST), z3 decides every branch and every path's assertions"
NOTE = ("Bounded: every input within the bounds stated in the evidence and DESIGN.md is covered; z3 discharges each path's assertions "
        "and certifies that the paths cover the domain. Trusts z3 and the symbolic models of str/re, which are cross-checked by replaying "
        "sampled paths and every counterexample on the uninstrumented code.")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")) and i not in NA:
        cmd = "python3-vt -W ignore symx/run.py %s " % i
        checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", technique=TECH.get(i, DEF),
                           level="model_checking", level_note=NOTE, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -W ignore tools/selftest.py", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
