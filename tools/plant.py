#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: build planted-bug folders from a spec and test them.

SPEC.py defines BUGS = {id: dict(property, file, edits=[(old, new), ...] (or files={...}),
needs, breaks, demo)}.  For each: copy /repo to /tmp/mut/<id>, edit, write
seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, run the demo on /repo (must pass) and
on the copy (must fail), run the repository's tests on the copy, then the property's check.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# cwd: a built tree of the repository
exec env JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
PRE = """import os, sys
import numpy as np
import diffstar
assert os.path.realpath(diffstar.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), diffstar.__file__
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def plant(name, b, tests=True, check=True):
    mut = f"/tmp/mut/{name}"
    shutil.rmtree(mut, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout, "/repo is not clean"
    sh(f"cp -a /repo {mut}")
    files = b.get("files") or {b["file"]: b["edits"]}
    for f, edits in files.items():
        p = os.path.join(mut, f)
        s = open(p).read()
        for e in edits:
            old, new = e[0], e[1]
            n = s.count(old)
            if len(e) == 3:  # k-th occurrence
                parts = s.split(old)
                assert len(parts) > e[2] + 1, (name, old)
                s = old.join(parts[: e[2] + 1]) + new + old.join(parts[e[2] + 1 :])
                continue
            assert n == 1, f"{name}: {n} occurrences of {old!r} in {f}"
            s = s.replace(old, new)
        open(p, "w").write(s)
    d = os.path.join(ROOT, "seeded", name)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", cwd=mut).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    r1 = sh(f"bash {d}/demo.sh", cwd=mut)
    last = (r1.stderr.strip().splitlines() or [""])[-1][:150]
    out = [f"demo {'ok' if r0.returncode == 0 else 'FAILS ON CLEAN: ' + r0.stderr[-600:]}/{'fails' if r1.returncode else 'PASSES ON MUTANT'} ({last})"]
    if tests:
        env = "JAX_PLATFORMS=cpu MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1"
        t = sh(f"{env} PYTHONPATH={mut} {PY} -m pytest -q -p no:cacheprovider -n 8 --dist worksteal --timeout=300 diffstar 2>&1 | tail -6", cwd=mut)
        out.append("tests: " + t.stdout.strip().splitlines()[-1] + ("" if "failed" not in t.stdout else t.stdout))
    if check:
        for c in b.get("checks", [b["property"]]):
            t = sh(f"VERIF_REPO={mut} ./run.py {c}", cwd=ROOT)
            v = [l for l in t.stdout.splitlines() if l.startswith("VIOLATION")]
            msg = [l for l in t.stdout.splitlines() if "[f" in l][:1]
            out.append(f"{c}: rc={t.returncode} {'CAUGHT ' + str(msg)[:200] if v else 'MISSED ' + t.stderr[-300:]}")
    print(name, "|", "\n     ".join(out), flush=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    opts = [a for a in sys.argv[2:] if a.startswith("--")]
    want = [a for a in sys.argv[2:] if not a.startswith("--")]
    for k, b in ns["BUGS"].items():
        if not want or k in want:
            try:
                plant(k, b, tests="--no-tests" not in opts, check="--no-check" not in opts)
            except AssertionError as e:
                print(k, "ERROR", e)
            if "--keep" not in opts:
                shutil.rmtree(f"/tmp/mut/{k}", ignore_errors=True)
