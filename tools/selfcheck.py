"""Confirm that the interpreter, the solvers and the repository's sources are in place (nothing is built)."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402,F401
from vf import run  # noqa: E402

run._setup() if hasattr(run, "_setup") else None
import z3  # noqa: E402

from vf import loader, smt, sym as S  # noqa: E402

x = S.var("x")
assert smt.solve([S.lt(S.mul(x, x), S.const(-1))], 5.0).status == "unsat"
assert smt.solve([S.lt(S.const(2), x)], 5.0).status == "sat"
assert all(os.path.exists(loader.source_path(n)) for n in ("model", "fit", "greedy", "grid", "measure", "density"))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print("z3", z3.get_version_string(), "ready")
