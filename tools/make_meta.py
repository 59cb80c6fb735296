"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "nonlinear_avoidance/"
TECH = "contract-based deductive verification of the real Python source (pyvc symbolic execution of the repository AST, VCs discharged by z3/cvc5)"
NOTE = ("Every obligation generated from the current source of the listed functions is discharged for all inputs of the contract's precondition "
        "(any space dimension, symbolic array lengths where stated; object lists of 0..3 elements are enumerated). Assumes: exact real arithmetic instead of "
        "floating point, the numpy/math models of pyvc, and the stub sources in /verif/stubs for the two packages that are not installed. The same contracts are "
        "also executed on the real code with concrete inputs (bounded search) to obtain failing inputs.")

P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), claimed=True, reason=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, q=qtext, why=why, files=files, mech=mech, over=list(over),
                  claimed=claimed, reason=reason, note=note))


exec(open(os.path.join(HERE, "tools", "meta_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=["return values and object state of the public functions"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]

man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="No hooks in /repo: the contracts live beside the code in /verif/contracts and the functions are taken from the repository's source on every run.")
for p in P:
    if p["claimed"]:
        man["checks"].append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                                  evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="proof", level_note=p["note"] or NOTE))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
