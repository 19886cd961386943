"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {
    "C28": "The statement is about a finite shipped table of numbers: there is no input, schedule or history to make symbolic, so a solver would only evaluate fixed data; the parsers that read such tables are decided under C25 and C26.",
    "C29": "Convergence to a local optimum in double precision depends on scipy's SLSQP (compiled Fortran/C) and on an unbounded number of floating-point iterations, which cannot be encoded within reach; one step, its fixed points, its descent and the loop control are decided under C12-C17.",
}
NOTE = ("Every value of the symbolic inputs within the stated sizes: the functions are executed symbolically from /repo's current source, every assertion and "
        "every definedness condition is discharged by z3 / cvc5 over the reals, every solver counterexample is replayed on the untouched code before it is "
        "reported, and the encoding is compared with the real code on concrete runs. Trusts the numpy/scipy semantics in vf/, the canonical form in vf/nf.py and "
        "exact real arithmetic in place of floating point. ")
EXTRA = json.load(open(os.path.join(ROOT, "tools", "notes.json"))) if os.path.exists(os.path.join(ROOT, "tools", "notes.json")) else {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(ROOT, "props", i + ".py")):
            checks.append(dict(property=i, quick_cmd=f"{PY} check.py {i} quick", thorough_cmd=f"{PY} check.py {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique="symbolic execution of the Python source, obligations decided by SMT (z3, cvc5)",
                               level="model_checking", level_note=(NOTE + EXTRA.get(i, "")).strip()))
        else:
            na.append(dict(property=i, reason="The check for this property is not built yet."))
    json.dump(dict(version=1, setup_cmd=f"{PY} tools/selfcheck.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: the source is executed as it stands. /repo carries only fix: commits."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
