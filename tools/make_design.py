#!/usr/bin/env python3
"""DESIGN.md = design_text.md + tables generated from properties.jsonl, the contracts, seeded/ and known_findings.jsonl."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, "tools", "design_text.md")).read().rstrip("\n"), "", "## Properties and how each is decided", ""]
props = sorted((json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))), key=lambda p: p["id"])
cons = {}
for f in sorted(glob.glob(os.path.join(V, "contracts", "c*.py"))):
    src = open(f).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                    cons.setdefault(d.args[0].value, []).append((n.name, ast.get_docstring(n), os.path.basename(f), any(k.arg == "modular" for k in d.keywords)))
notes = {}
for b in re.split(r"(?m)^### ", open(os.path.join(V, "tools", "design_notes.md")).read())[1:]:
    k, _, t = b.partition("\n")
    notes[k.strip()] = t.strip()
for p in props:
    out += [f"### {p['id']} {p['title']}", "", notes.get(p["id"], ""), "", f"Quantified over: {p['quantifier']['text']}.", ""]
    cs = cons.get(p["id"], [])
    out.append(f"Contracts ({len(cs)}, `{cs[0][2]}`" + (", * = callees by contract" if any(c[3] for c in cs) else "") + "): " +
               ", ".join(n + ("*" if m else "") for n, d, f, m in cs) + ".")
    out.append("")
out += ["## Not covered", "", notes["not covered"], "", "## Planted bugs", "",
        "Confirmed by `tools/plant.py` (builds, stable test passes, demo 0/1); `caught` is the check of the named property" \
        " (c04-weights-reversed touches lines of a fix commit, so it does not count).", "", "| bug | property | needs | caught |", "|---|---|---|---|"]
missed = set(notes.get("missed", "").split())
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {'no' if i in missed else 'yes'} |")
out += ["", "## Defects found in the code", "", "Repaired by `fix:` commits in /repo (a fixed entry suppresses nothing):", ""]
for l in open(os.path.join(V, "known_findings.jsonl")):
    d = json.loads(l)
    if d["status"] == "fixed":
        out.append(f"* {d['property']} {d['commit']}: {d['what'].split(' ', 3)[3]}")
out += ["", "Seen, not repaired (outside of every claimed property, or no small safe repair):", "", notes["unrepaired"], ""]
out += ["## History of false alarms and engine changes", "", notes["history"], ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
