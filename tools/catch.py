#!/usr/bin/env python3
"""Run the check of every planted change (seeded/*) against a copy of /repo with the change.

usage: tools/catch.py [id ...]     prints one line per change; scratch copies under /tmp/catch
"""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tree = f"/tmp/catch/{i}"
        os.makedirs(tree)
        try:
            subprocess.run(f"git -C /repo archive HEAD | tar -x -C {tree}", shell=True, check=True)
            subprocess.run(["patch", "-s", "-p1", "-d", tree, "-i", os.path.join(d, "patch.diff")], check=True)
            t0 = time.time()
            r = subprocess.run([os.path.join(HERE, "run.py"), prop], env=dict(os.environ, VERIF_REPO=tree), capture_output=True, text=True)
            what = [x for x in r.stdout.splitlines() if "]:" in x]
            print(f"{i} {prop} rc={r.returncode} {time.time() - t0:.0f}s {'CAUGHT' if r.returncode == 1 else 'MISSED'} {what[0][:140] if what else r.stderr[-300:]}", flush=True)
        finally:
            shutil.rmtree(tree)


if __name__ == "__main__":
    main()
