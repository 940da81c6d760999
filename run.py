#!/opt/venv/bin/python
"""run.py CHECK [--tier quick|thorough] [--replay FILE] [--only TEST]

Runs every property test of one check (in worker processes, one per float mode and
shard), writes evidence/<CHECK>.json, prints VIOLATION lines.
Exit: 0 held, 1 violated, 3 harness error.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def child_env():
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP")}
    env.update(
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        HDF5_USE_FILE_LOCKING="FALSE",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    env.pop("JAX_ENABLE_X64", None)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the framework and the package import")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.setup:
        code = ("import sys; sys.path.insert(0, '.'); from pbt.boot import boot; boot('f64'); import hypothesis, diffstar; "
                "print('hypothesis', hypothesis.__version__, hypothesis.__file__, 'diffstar', diffstar.__file__)")
        return subprocess.call([PY, "-B", "-c", code], cwd=HERE, env=child_env())
    a.tier = "thorough" if a.tier == "thorough" else "quick"
    sys.path.insert(0, HERE)
    from checks.shards import SHARDS

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_" + a.check + "_")
    try:
        return _run(a, SHARDS, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(a, SHARDS, tmp, t0):
    budget = 420.0 if a.tier == "quick" else 3000.0
    jobs = []
    if a.replay:
        mode = json.load(open(a.replay))["mode"]
        jobs.append(dict(mode=mode, shard=0, nshards=1, replay=os.path.abspath(a.replay)))
    else:
        for mode, n in SHARDS[a.check].items():
            for i in range(1 if a.only else n):
                jobs.append(dict(mode=mode, shard=i, nshards=n))
    procs = []
    for k, j in enumerate(jobs):
        j.update(
            check=a.check, tier=a.tier, seed=a.seed, budget_s=budget,
            shrink_s=40.0 if a.tier == "quick" else 120.0,
            out=os.path.join(tmp, f"r{k}.json"), only=a.only,
        )
        log = open(os.path.join(tmp, f"log{k}.txt"), "w")
        env = child_env()
        env["TMPDIR"] = tmp
        procs.append((j, log, subprocess.Popen(
            [PY, "-B", os.path.join(HERE, "pbt", "worker.py"), json.dumps(j)],
            cwd=tmp, env=env, stdout=log, stderr=subprocess.STDOUT)))
    hard = t0 + (840.0 if a.tier == "quick" else 7200.0)
    errors, results = [], []
    replay_msg = None
    for j, log, p in procs:
        try:
            p.wait(timeout=max(5.0, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"worker {j['mode']}/{j['shard']} did not finish in time")
        log.close()
        try:
            o = json.load(open(j["out"]))
        except Exception:
            errors.append(
                f"worker {j['mode']}/{j['shard']} left no result (rc {p.returncode}):\n"
                + open(log.name).read()[-3000:])
            continue
        if o["error"]:
            errors.append(o["error"])
        results += o["results"]
        replay_msg = o.get("replay", replay_msg)
    if a.replay:
        for e in errors:
            print(e, file=sys.stderr)
        if errors:
            return 3
        if replay_msg:
            print(replay_msg)
            print(f"VIOLATION property={a.check} replay={os.path.abspath(a.replay)}")
            return 1
        print("replayed case passes")
        return 0

    viols = []
    for r in results:
        if r["error"]:
            errors.append(f"{r['test']} [{r['mode']}]:\n{r['error']}")
        if r["violation"]:
            d = os.path.join(HERE, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{a.check}_{r['test']}_{r['mode']}.json")
            json.dump(dict(property=a.check, test=r["test"], mode=r["mode"], seed=a.seed,
                           message=r["violation"]["message"], case=r["violation"]["case"]),
                      open(path, "w"), indent=1)
            viols.append((path, r))
    evaluations = sum(r["evaluations"] for r in results)
    distinct = sum(r["distinct_nontrivial"] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append(dict(test=r["test"], mode=r["mode"], case=s))
    ev = dict(
        property=a.check, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=evaluations,
            distinct_nontrivial=distinct,
            rule="; ".join(sorted({f"{r['test']}: {r['rule']}" for r in results})),
            samples=samples,
            tests=[{k: r[k] for k in ("test", "mode", "evaluations", "skipped", "truncated", "duplicates",
                                      "distinct_nontrivial", "labels", "wall_s")}
                   for r in results],
        ),
        wall_s=round(time.time() - t0, 2),
        violations=len(viols),
    )
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.check + ".json"), "w"), indent=1)
    if a.verbose:
        for r in results:
            print(f"  {r['mode']} {r['test']}: {r['evaluations']} evals, {r['duplicates']} dup, {r['distinct_nontrivial']} nontrivial, "
                  f"{r['skipped']} skipped, {r['truncated']} truncated, {r['wall_s']}s {r['labels']}")
    kf = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith(f"KNOWN-FINDING: property={a.check} "):
                print(line.strip())
    for path, r in viols:
        print(f"{r['test']} [{r['mode']}]: {r['violation']['message']}")
        print(f"VIOLATION property={a.check} replay={path}")
    if viols:
        for e in errors:
            print(e, file=sys.stderr)
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR", e, file=sys.stderr)
        return 3
    if evaluations == 0:
        print("HARNESS ERROR nothing was evaluated", file=sys.stderr)
        return 3
    print(f"OK property={a.check} evaluations={evaluations} distinct_nontrivial={distinct} wall={ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
