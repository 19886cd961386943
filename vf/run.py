"""Entry point: decide one property."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _setup():
    if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"


_setup()


def load(prop):
    return importlib.import_module("props." + prop)


def _work(args):
    prop, k, tier, seed, deadline = args
    from vf import engine
    m = load(prop)
    jobs = m.jobs(tier)
    return k, engine.run_job(jobs[k], seed, deadline, tier)


def write_replay(prop, k, job, v):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{k}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, job=k, tier=os.environ.get("VERIF_TIER", "quick"), name=job, **v), f, indent=1, default=str)
    return path


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} ["):
                key, what = line.strip().split(" ", 2)[2][1:].split("] ", 1)
                out.append((key, what))
    return out


def split_known(prop, outs):
    """take the violations that are listed findings (same failing check) out of the results; -> lines to print."""
    seen = []
    for o in outs:
        for v in list(o.violations):
            for key, what in known_findings(prop):
                if str(v.get("detail", "")).startswith(key + ":"):
                    o.violations.remove(v)
                    seen.append(what)
                    break
    return seen


def main(argv=None):
    argv = argv or sys.argv[1:]
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and argv[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    only = [a[7:] for a in argv if a.startswith("--only=")]
    serial = "--serial" in argv
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    m = load(prop)
    from vf import engine, loader
    jobs = m.jobs(tier)
    limit = getattr(m, "LIMIT", {}).get(tier, 700 if tier == "quick" else 840)
    deadline = t0 + limit
    found = []
    idx = [k for k in range(len(jobs)) if not only or any(o in jobs[k].name for o in only)]
    outs = {}
    violation = None
    if serial:
        for k in idx:
            outs[k] = engine.run_job(jobs[k], seed, deadline, tier)
            found += split_known(prop, [outs[k]])
            if verbose:
                report(outs[k])
            if outs[k].violations:
                break
    else:
        nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(idx)))
        ctx = mp.get_context("fork")
        pool = ctx.Pool(nproc, maxtasksperchild=8)
        try:
            it = pool.imap_unordered(_work, [(prop, k, tier, seed, deadline) for k in idx])
            while len(outs) < len(idx):
                try:
                    k, o = it.next(timeout=max(1, deadline + 25 - time.time()))
                except mp.TimeoutError:
                    for k in idx:
                        if k not in outs:
                            outs[k] = engine.unfinished(jobs[k])
                    break
                outs[k] = o
                found += split_known(prop, [o])
                if verbose:
                    report(o)
                if o.violations:
                    break
        finally:
            pool.terminate()
            pool.join()
    wall = time.time() - t0
    lines = []
    code = 0
    vio = [(k, v) for k, o in sorted(outs.items()) for v in o.violations]
    problems = [(o.name, p) for k, o in sorted(outs.items()) for p in o.problems]
    mism = [(o.name, p) for k, o in sorted(outs.items()) for p in o.mismatch]
    for f in dict.fromkeys(found):
        print(f"KNOWN-FINDING: property={prop} {f}")
    if vio:
        k, v = vio[0]
        path = write_replay(prop, k, jobs[k].name, v)
        print(f"{jobs[k].name}: {v['label']}: {v.get('detail')}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif problems or mism:
        for n, p in problems[:12]:
            print(f"INCONCLUSIVE {prop} {n}: {p}")
        for n, p in mism[:6]:
            print(f"ENCODING-MISMATCH {prop} {n}: {p}")
        code = 2
    evidence(prop, tier, seed, m, jobs, outs, wall, len(vio), problems, mism, loader)
    tot = sum(o.goals for o in outs.values())
    print(f"{prop} {tier}: {len(outs)}/{len(idx)} harness instances, {sum(o.paths for o in outs.values())} paths, {tot} obligations, "
          f"{sum(o.stats.get('queries', 0) for o in outs.values())} queries, solver {sum(o.stats.get('solver_s', 0) for o in outs.values()):.1f}s, wall {wall:.1f}s, exit {code}")
    return code


def report(o):
    print(f"  {o.name}: paths {o.paths} cut {o.cut} goals {o.goals} def {o.definedness} ok {o.discharged} val {o.validated} wall {o.wall:.1f} {o.stats}", flush=True)
    for p in o.problems:
        print("    PROBLEM", p)
    for p in o.mismatch[:3]:
        print("    MISMATCH", p)
    for v in o.violations:
        print("    VIOLATION", v)


def evidence(prop, tier, seed, m, jobs, outs, wall, nvio, problems, mism, loader):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    st = {}
    for o in outs.values():
        for k, v in o.stats.items():
            if isinstance(v, dict):
                for a, b in v.items():
                    st.setdefault(k, {})
                    st[k][a] = st[k].get(a, 0) + b
            elif k.startswith("max"):
                st[k] = max(st.get(k, 0), v)
            else:
                st[k] = round(st.get(k, 0) + v, 3)
    samples = []
    for k, o in sorted(outs.items()):
        for s in o.samples[:1]:
            samples.append(dict(harness=o.name, **s))
        if len(samples) >= 6:
            break
    cov = dict(
        states=sum(o.paths for o in outs.values()),
        transitions=sum(o.branches for o in outs.values()),
        traces_validated_against_impl=sum(o.validated for o in outs.values()),
        obligations=sum(o.goals + o.definedness for o in outs.values()),
        discharged=sum(o.discharged for o in outs.values()),
        definedness_obligations=sum(o.definedness for o in outs.values()),
        infeasible_paths_cut=sum(o.cut for o in outs.values()),
        undecided_branches=sum(o.unknown_branches for o in outs.values()),
        observations_compared_with_real_code=sum(o.obs_compared for o in outs.values()),
        harness_instances=len(outs), harness_instances_planned=len(jobs),
        queries=st, functions_encoded=getattr(m, "FUNCTIONS", []), bounds=getattr(m, "BOUNDS", ""),
        obligation_kinds=sorted(set().union(*[o.goal_labels for o in outs.values()]))[:60] if outs else [],
        source_fingerprint=loader.fingerprint(), unresolved=[f"{n}: {p}"[:300] for n, p in (problems + mism)[:10]], samples=samples,
        slowest=[dict(harness=o.name, wall_s=round(o.wall, 2)) for o in sorted(outs.values(), key=lambda o: -o.wall)[:3]])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=getattr(m, "ASSUMPTIONS", []) + COMMON,
              wall_s=round(wall, 3), violations=nvio)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


COMMON = [
    "numbers are exact reals: machine rounding, overflow and underflow are outside the claim; a float literal stands for the simplest real that rounds to it",
    "numpy/scipy/math primitives are replaced by their documented exact semantics (vf/npshim.py, vf/arr.py); each run compares encoded and real outputs on concrete inputs",
    "the claim covers the sizes listed under bounds, every value of the symbolic inputs within them",
]

if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.exit(main())
