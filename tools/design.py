"""Write the per-property part of DESIGN.md from what is registered.

PYTHONPATH=/verif:/repo /opt/venv/bin/python -W ignore tools/design.py
"""
import ast
import json
import os
import sys
import textwrap

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from hfmon import core                                        # noqa
BEGIN, END = "<!-- generated: begin -->", "<!-- generated: end -->"


def fill(text, indent=""):
    return textwrap.fill(" ".join(text.split()), 78,
                         initial_indent=indent and indent[:-2] + "* ",
                         subsequent_indent=indent, break_long_words=False,
                         break_on_hyphens=False)


def notes():
    """Scope notes per property: lines 'Cnn text' of design_notes.txt."""
    out = {}
    for line in open(os.path.join(HERE, "tools", "design_notes.txt")):
        if line.strip() and not line.startswith("#"):
            k, v = line.split(None, 1)
            out.setdefault(k, []).append(v.strip())
    return out


def seeded():
    out = {}
    root = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, name, "meta.json")))
        out.setdefault(m["property"], []).append((name, m))
    return out


def main():
    man = dict((c["property"], c) for c in json.load(
        open(os.path.join(HERE, "MANIFEST.json")))["checks"])
    props = [json.loads(x) for x in
             open(os.path.join(HERE, "properties.jsonl"))]
    scope, bugs, lines = notes(), seeded(), []
    fixed = json.load(open(os.path.join(HERE, "known_findings.json")))
    for p in props:
        pid = p["id"]
        prop = core.load(pid)
        lines += ["### %s %s" % (pid, p["title"]), ""]
        lines += [fill("Oracle: %s." % man[pid]["technique"]), ""]
        lines += [fill("Workload: " + prop.rule), ""]
        lines += ["Families (cases quick / thorough):", ""]
        for f in prop.families:
            doc = (f.fn.__doc__ or "").strip().split("\n\n")[0]
            n = "all %d" % f.quick if f.index_all else "%d / %d" % (f.quick,
                                                              f.thorough)
            lines += [fill("`%s` (%s) %s" % (f.name, n, doc), "  ")]
        lines += [""]
        if prop.floors:
            lines += [fill("Must be observed, else the run is inconclusive "
                           "(exit 2): " + ", ".join(sorted(prop.floors)) +
                           "."), ""]
        for a in prop.assumptions:
            lines += [fill("Assumes: " + a), ""]
        if scope.get(pid):
            lines += ["Scope and decisions:", ""]
            lines += [fill(x, "  ") for x in scope[pid]] + [""]
        n = len([x for x in fixed["fixed"] if "property=%s " % pid in x])
        if n:
            lines += ["Defects found and repaired: %d (known_findings.json)."
                      % n, ""]
        if bugs.get(pid):
            lines += ["Seeded changes:", ""]
            lines += [fill("`%s`: %s" % (k, m["what_it_breaks"]), "  ")
                      for k, m in bugs[pid]] + [""]
    lines += ["## Which check catches which planted bug", "",
              "Quick tier, VERIF_SEED=1, on a copy with the patch applied:",
              "", "| planted bug | property | its check | needs |",
              "| --- | --- | --- | --- |"]
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    for pid in sorted(bugs):
        for k, m in bugs[pid]:
            lines.append("| %s | %s | %s | %s |" % (
                k, pid, caught.get(k, ("", "not run"))[1], m["needs"]))
    lines += [""]
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    a, b = text.index(BEGIN), text.index(END)
    text = text[:a] + BEGIN + "\n\n" + "\n".join(lines) + "\n" + text[b:]
    open(path, "w").write(text)


main()
