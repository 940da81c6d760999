"""Runs one shard of one check in one float mode; writes a JSON result file."""
import importlib
import json
import os
import sys
import time
import traceback


def main():
    job = json.loads(sys.argv[1])
    t0 = time.time()
    out = dict(results=[], error=None)
    try:
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        from pbt.boot import boot

        boot(job["mode"])
        from pbt import core

        importlib.import_module("checks." + job["check"].lower())
        core.QUICK_FACTOR = importlib.import_module("checks.shards").QUICK_FACTOR.get(job["check"], 1)
        tests = [t for t in core.TESTS if t.mode == job["mode"]]
        if job.get("replay"):
            rep = json.load(open(job["replay"]))
            tests = [t for t in core.TESTS if t.mode == rep["mode"] and t.name == rep["test"]]
            if not tests:
                raise RuntimeError("replay names an unknown test")
            ctx, msg = core.run_one(tests[0], rep["case"], rep["mode"])
            out["replay"] = msg
        else:
            mine = [t for i, t in enumerate(tests) if i % job["nshards"] == job["shard"]]
            if job.get("only"):
                mine = [t for t in tests if t.name == job["only"]]
            out["import_s"] = round(time.time() - t0, 2)
            for t in mine:
                left = job["budget_s"] - (time.time() - t0)
                out["results"].append(
                    core.drive(t, job["tier"], job["seed"], max(left, 5.0), job["shrink_s"])
                )
                json.dump(out, open(job["out"], "w"))
    except BaseException:
        out["error"] = traceback.format_exc()
    json.dump(out, open(job["out"], "w"))


if __name__ == "__main__":
    main()
