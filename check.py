"""usage: check.py PROPERTY [quick|thorough] [-v] [--serial] [--only=substring] | check.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import run  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        import json
        d = json.load(open(sys.argv[2]))
        from vf import engine
        job = run.load(d["property"]).jobs(d.get("tier", "quick"))[d["job"]]
        engine.A.SINGLE_USED[0] = bool(d.get("low_precision"))
        env, st = engine.concrete_run(job, d["values"])
        print(job.name, st)
        for f in env.failures:
            print("  ", *f)
        sys.exit(1 if st == "failed" else 0)
    sys.exit(run.main())
