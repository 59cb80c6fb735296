#!/usr/bin/env python3
"""Plant the bugs of tools/plants/*.py: confirm each in a scratch copy and write seeded/<id>/.

usage: plant.py [ID-prefix ...]      (existing ones are redone only when named)
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BUGS = []
PRE = '''"""Demonstration: exits 0 on the unchanged tree, nonzero with the change."""
import warnings; warnings.filterwarnings("ignore")
import math, sys
import numpy as np
'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD:$here/stubs"
exec timeout 200 /opt/venv/bin/python "$here/demo.py" </dev/null
'''


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=textwrap.dedent(demo)))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    sys.modules["plant"] = sys.modules["__main__"]
    d = os.path.join(VERIF, "tools", "plants")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location("p_" + f[:-3], os.path.join(d, f))
            spec.loader.exec_module(importlib.util.module_from_spec(spec))
    names = sys.argv[1:]
    out = {}
    for b in BUGS:
        dst = os.path.join(VERIF, "seeded", b["id"])
        if names and not any(b["id"].startswith(n) for n in names):
            continue
        if not names and os.path.exists(dst):
            continue
        scratch = tempfile.mkdtemp(prefix="plant_")
        try:
            repo = os.path.join(scratch, "repo")
            run(["git", "clone", "-q", "/repo", repo])
            path = os.path.join(repo, "nonlinear_avoidance", b["file"])
            src = open(path).read()
            for old, new in b["edits"]:
                if src.count(old) != 1:
                    print(b["id"], "edit matches", src.count(old), "times:", old[:60]); src = None; break
                src = src.replace(old, new)
            if src is None:
                continue
            tmp = os.path.join(scratch, "bug"); os.makedirs(tmp)
            shutil.copytree(os.path.join(VERIF, "stubs"), os.path.join(tmp, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(tmp, "demo.py"), "w").write(PRE + b["demo"])
            open(os.path.join(tmp, "demo.sh"), "w").write(SH)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
            clean = run(["bash", os.path.join(tmp, "demo.sh")], cwd=repo)
            open(path, "w").write(src)
            open(os.path.join(tmp, "patch.diff"), "w").write(run(["git", "-C", repo, "diff"]).stdout)
            broken = run(["bash", os.path.join(tmp, "demo.sh")], cwd=repo)
            env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
            test = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_graph_handler.py::test_graph_element"], cwd=repo, env=env)
            ok = clean.returncode == 0 and broken.returncode != 0 and test.returncode == 0
            if not ok:
                print(b["id"], "NOT CONFIRMED clean", clean.returncode, "broken", broken.returncode, "test", test.returncode)
                print(clean.stdout[-800:], broken.stdout[-800:] if broken.returncode == 0 else "")
                continue
            ev = tempfile.mkdtemp(prefix="plant_ev_")
            chk = run([os.path.join(VERIF, "check"), b["prop"]], cwd=VERIF, env=dict(os.environ, PYVC_REPO=repo, PYVC_EVIDENCE=ev))
            shutil.rmtree(ev, ignore_errors=True)
            viol = [l for l in chk.stdout.splitlines() if l.startswith("VIOLATION property=" + b["prop"])]
            nofail = sum(l.endswith("no-failing-input-found") for l in viol)
            print(b["id"], b["prop"], "CAUGHT" if chk.returncode == 1 and viol else f"MISSED rc={chk.returncode}", f"{len(viol)} violations, {nofail} without input;",
                  "demo:", broken.stdout.strip().splitlines()[-1][:100] if broken.stdout.strip() else "", flush=True)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(tmp, dst)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
