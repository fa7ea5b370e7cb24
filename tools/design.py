"""Regenerate the per-property part of DESIGN.md from the checks themselves.

    python3 tools/design.py

Text comes from properties.jsonl and the docstring, BOUNDS and ASSUMPTIONS of
each check; measured costs come from /verif/evidence if a run left them."""

import ast
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = "<!-- begin generated -->", "<!-- end generated -->"


def consts(path):
    tree = ast.parse(open(path).read())
    out = {"doc": ast.get_docstring(tree)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def fill(label, text):
    return textwrap.fill("%s %s" % (label, " ".join(text.split())), 79,
                         subsequent_indent="  ", break_long_words=False,
                         break_on_hyphens=False)


def main():
    parts = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        c = consts(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        doc = c["doc"].split("\n\n", 1)
        body = doc[1] if len(doc) > 1 else doc[0].split(": ", 1)[1]
        parts += ["### %s: %s" % (p["id"], p["title"]), ""]
        parts += [fill("*", "*Decided by:* " + body)]
        parts += [fill("*", "*Enumerated (bounds):* " + c["BOUNDS"])]
        if c.get("ASSUMPTIONS"):
            parts += [fill("*", "*Assumed:* " + "; ".join(c["ASSUMPTIONS"]))]
        parts += [fill("*", "*Why tests cannot settle it:* "
                       + p["why_tests_cant"])]
        ev = os.path.join(HERE, "evidence", p["id"] + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            k = e["coverage"]
            n = k.get("states", k.get("distinct_nontrivial"))
            m = k.get("transitions", k.get("evaluations"))
            parts += [fill("*", "*Cost (%s tier, 8 cores):* about %d s, %s "
                           "states, %s transitions" % (
                               e["tier"], round(e["wall_s"]), format(n, ","),
                               format(m, ",")))]
        parts.append("")
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    a, b = text.index(BEGIN) + len(BEGIN), text.index(END)
    open(path, "w").write(text[:a] + "\n\n" + "\n".join(parts) + "\n"
                          + text[b:])


main()
