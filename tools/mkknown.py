#!/usr/bin/env python3
"""Writes known_findings.json: the findings that are recorded and the defects that were repaired."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property="C14", id="newline-reference-text", what="an expression behind a newline that is written as a character reference (&#10; or &#xA;) in the same text "
         "is located a line too far down for each of them: the position is counted in the decoded text (input: <html>\\n&#10;$fail()</html>)"),
    dict(property="C14", id="newline-reference-attribute", what="an expression behind a newline that is written as a character reference (&#10;, &#xA; or &NewLine;) in the same "
         "attribute value is located a line too far down for each of them (input: <html>\\n<b c='&#10;$fail()'/></html>)"),
]
PROP = json.load(open(os.path.join(HERE, "tools", "fixprops.json")))
fixed = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (PROP[s[5:]], h, s[5:]))
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
