"""Edits of /repo that keep the behaviour: every check has to stay quiet (exit 0) on them.

usage: quiet.py [-j N] [-t] [--props=C01,C02] [ID ...]     (scratch copies under /tmp, removed afterwards)
Each entry of tools/quiet_edits.py is E(id, properties, {module: [(old, new), ...]}); the suite runs too with -t.
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    def E(id, props, edits):
        assert id not in [o[0] for o in out], id
        out.append((id, props.split(), edits))
    exec(compile(open(os.path.join(HERE, "quiet_edits.py")).read(), "quiet_edits.py", "exec"), {"E": E})
    return out


def one(spec, tests):
    id, props, edits = spec
    d = tempfile.mkdtemp(prefix=f"quiet_{id}_")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for mod, subs in edits.items():
            p = f"{d}/repo/bfit/{mod}.py"
            s = open(p).read()
            for old, new in subs:
                if s.count(old) != 1:
                    return f"{id}: BAD EDIT ({s.count(old)} matches of {old[:60]!r})"
                s = s.replace(old, new)
            open(p, "w").write(s)
        res = []
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "3", "--no-cov", "-o", f"cache_dir={d}/c", "bfit/test"], cwd=d + "/repo",
                               env=dict(env, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
            last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
            res.append("tests " + last)
        for p in props:
            r = subprocess.run(["/opt/venv/bin/python", "check.py", p, "quick"] + (["--serial"] if JOBS > 2 else []), cwd=VERIF, env=dict(env, VERIF_REPO=d + "/repo", VERIF_OUT=d), capture_output=True, text=True)
            if r.returncode:
                lines = [l for l in r.stdout.splitlines() if l.strip()]
                res.append(f"{p} exit {r.returncode}: " + " | ".join(l[:300] for l in lines[:3] + lines[-2:]))
        bad = any("exit" in x for x in res) or any("failed" in x or "error" in x for x in res)
        return f"{id}: {'NOT QUIET' if bad else 'quiet'} {' '.join(res)}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    JOBS = int(args[args.index("-j") + 1]) if "-j" in args else 4
    tests = "-t" in args
    ids = [a for i, a in enumerate(args) if not a.startswith("-") and not (i and args[i - 1] == "-j")]
    only = [a[8:].split(",") for a in args if a.startswith("--props=")]
    specs = [(i, [p for p in q if not only or p in only[0]], e) for i, q, e in load()]
    specs = [s for s in specs if not ids or any(s[0].startswith(i) for i in ids)]
    with ThreadPoolExecutor(JOBS) as ex:
        for line in ex.map(lambda s: one(s, tests), specs):
            print(line, flush=True)
