"""Rewrite the per-property part of DESIGN.md from the properties and the checks: python3 tools/design.py

Between the lines "<!-- properties -->" and "<!-- end of properties -->"."""
import ast
import json
import os
import re
import textwrap

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WANT = ("TECHNIQUE", "NOTE", "RULE", "ASSUMPTIONS", "REQUIRED", "TERMINATES")


def literal(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return None


def groups(node):
    out = []
    for k, v in zip(node.keys, node.values):
        out.append((k.value, [literal(e) for e in v.elts][:2]))
    return out


def flat(s):
    return " ".join(s.split())


def para(s):
    return textwrap.fill(s, 118, subsequent_indent="  ")


def section(p):
    path = os.path.join(here, "checks", p["id"] + ".py")
    out = ["### %s: %s" % (p["id"], p["title"]), ""]
    if not os.path.exists(path):
        return out + ["Not claimed yet.", ""]
    v, g = {}, []
    tree = ast.parse(open(path).read())
    docs = {n.name: ast.get_docstring(n) for n in tree.body if isinstance(n, ast.FunctionDef)}
    for node in tree.body:
        if isinstance(node, ast.Assign):
            name = getattr(node.targets[0], "id", "")
            if name in WANT:
                v[name] = literal(node.value)
            if name == "GROUPS":
                g = groups(node.value)
    out.append(para("* Specified: " + flat(p["statement"])))
    out.append(para("* Decided by: " + flat(v["TECHNIQUE"]) + "."))
    out.append(para("* Explored: " + flat(v["NOTE"]) + " " + flat(v["RULE"])))
    out.append(para("* Workloads, with the number of cases (quick / thorough): " + "; ".join(
        "%s%s (%s / %s)" % (k, ", " + flat(docs[k]).rstrip(".") if docs.get(k) else "", n[0], n[1]) for k, n in g) + "."))
    if v.get("REQUIRED"):
        out.append(para("* Not vacuous, since each run must have observed at least: " + ", ".join(
            "%s %s" % (n, k) for k, n in v["REQUIRED"].items()) + "."))
    if v.get("ASSUMPTIONS"):
        a = v["ASSUMPTIONS"]
        out.append(para("* Assumed: " + flat(a if isinstance(a, str) else " ".join(a))))
    out.append(para("* Beyond the tests: " + flat(p["why_tests_cant"])))
    return out + [""]


def main():
    f = os.path.join(here, "DESIGN.md")
    s = open(f).read()
    body = []
    for line in open(os.path.join(here, "properties.jsonl")):
        body += section(json.loads(line))
    new = "<!-- properties -->\n\n%s\n<!-- end of properties -->" % "\n".join(body).rstrip()
    s = re.sub(r"<!-- properties -->.*<!-- end of properties -->", lambda m: new, s, flags=re.S)
    # planted bugs
    rows = []
    d = os.path.join(here, "seeded")
    for name in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, name, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (name, m["property"], flat(m["what_it_breaks"]), flat(m["needs"])))
    new = "<!-- planted -->\n\n| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n%s\n\n<!-- end of planted -->" % "\n".join(rows)
    s = re.sub(r"<!-- planted -->.*<!-- end of planted -->", lambda m: new, s, flags=re.S)
    open(f, "w").write(s)


main()
