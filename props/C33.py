"""C33: what a displayed run prints is what it does."""
import re

from vf.engine import Job
from props import C17, C20
from props.C13 import Res
from props.common import integral, make_grid, make_model, volume_weights

FUNCTIONS = ["fit.KLDivergenceFPI.run", "fit.ScipyFit.run", "fit._BaseFit.goodness_of_fit", "greedy.GreedyStrategy.run", "greedy.GreedyStrategy._print_header", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"fixed point": "0 to 3 steps (4 in thorough), 1-2 functions, any integrals", "ScipyFit": "three displayed iterations at any points, every method and mode, one to three centres",
          "greedy": "up to 4 functions (5 in thorough), accepted and rejected extensions of either type, all three rules"}
ASSUMPTIONS = ["a number that is printed is read as the value handed to the format (how many digits of it are shown is left open)", "scipy.optimize.minimize and the grid's integrate are arbitrary stand-ins"]
MEASURES = ("integr", "l1", "inf", "square", "kull")
NUMBER = r"(?:@\d+@|[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"


class Tape:
    """the printed text; a printed term is a reference to it."""

    def __init__(self, env):
        self.env, self.text, self.terms = env, "", []
        env.hook("print", self.write)
        env.hook("format", self.token)

    def write(self, *a, sep=" ", end="\n", **k):
        self.text += (" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end)

    def token(self, term):
        self.terms.append(term)
        return f"@{len(self.terms) - 1}@"

    def value(self, text):
        text = text.strip()
        return self.terms[int(text[1:-1])] if text.startswith("@") else float(text)

    def lines(self):
        return [x.strip() for x in self.text.split("\n")]

    def table(self, words):
        """rows of the printed table as {keyword: value}, columns found by the header's labels."""
        head, rows = None, []
        for line in self.lines():
            if head is None:
                cells = [c.strip().lower() for c in line.strip("|").split("|")]
                if len(cells) >= len(words):
                    at = {w: [k for k, c in enumerate(cells) if w in c] for w in words}
                    if all(len(v) == 1 for v in at.values()):
                        head, width = {w: v[0] for w, v in at.items()}, len(cells)
            else:
                cells = [c.strip() for c in line.strip("|").split("|")]
                if len(cells) == width and all(re.fullmatch(NUMBER, c) for c in cells):
                    rows.append({w: self.value(cells[k]) for w, k in head.items()})
        return rows

    def pairs(self, words):
        """rows printed as 'label: value, label: value, ...'."""
        rows = []
        for line in self.lines():
            found = [(a.strip(" ,;").lower(), b) for a, b in re.findall(r"([^:]*):\s*(%s)(?![\w.])" % NUMBER, line)]
            at = {w: [b for a, b in found if w in a] for w in words}
            if all(len(v) == 1 for v in at.values()):
                rows.append({w: self.value(v[0]) for w, v in at.items()})
        return rows

    def after(self, label):
        """numbers after the last line that starts with the label (up to the next label)."""
        m = re.findall(r"^\s*%s[^\n\[]*\[([^\]]*)\]" % label, self.text, re.M)
        return [self.value(x) for x in re.findall(NUMBER, m[-1])] if m else None

    def says(self, label):
        m = re.findall(r"^\s*%s[^\n:]*:\s*([^\n]*)$" % label, self.text, re.M)
        return m[-1].strip() if m else None


def same(env, x, y, label):
    """numbers shown with about six digits."""
    env.eq(x + 9, y + 9, label, tol=1e-5)


def final(env, tape, c, e, success):
    for label, ref in (("Coefficients", c), ("Exponents", e)):
        got = tape.after(label)
        env.check(got is not None and len(got) == len(ref), f"{label} are shown")
        if got is not None and len(got) == len(ref):
            for k in range(len(ref)):
                same(env, got[k], ref[k], f"shown {label} {k}")
    said = tape.says("Successful")
    env.check(said is not None, "success is shown")
    if said is not None:
        ok = tape.terms[int(said[1:-1])] if said.startswith("@") else said == "True"
        env.check(env.or_(env.and_(ok, success), env.and_(env.not_(ok), env.not_(success))), "shown success")


def fixed_point(env, model, mode, m):
    tape = Tape(env)
    grid, fit, nb = C17.make(env, model)
    oc, oe = C17.MODE[mode]
    c0, e0 = env.posreals("c", nb), env.posreals("e", nb)
    kw = dict(c_threshold=-1., e_threshold=-1., d_threshold=-1.)
    C, E, G = [c0], [e0], [None]
    for k in range(1, m + 1):
        r = fit.run(c0, e0, oc, oe, maxiter=k, **kw)
        C.append(r["coeffs"])
        E.append(r["exps"])
        G.append(fit.goodness_of_fit(C[k], E[k]))
    env.check(not tape.text, "nothing is printed without display")
    r = fit.run(c0, e0, oc, oe, maxiter=m, disp=True, **kw)
    env.eq(r["coeffs"], C[m], "coefficients as without display")
    env.eq(r["exps"], E[m], "exponents as without display")
    rows = tape.table(("iteration",) + MEASURES + ("coeff", "exp", "objective"))
    env.check(len(rows) == m, "one row per step")
    for k, row in enumerate(rows[:m], 1):
        env.check(row["iteration"] == k, "step number")
        for j, w in enumerate(MEASURES):
            same(env, row[w], G[k][j], f"shown {w} after step {k}")
        same(env, row["coeff"], C17.biggest(env, C[k], C[k - 1]), f"shown change of the coefficients in step {k}")
        same(env, row["exp"], C17.biggest(env, E[k], E[k - 1]), f"shown change of the exponents in step {k}")
        if k > 1:
            same(env, row["objective"], env.abs(G[k][4] - G[k - 1][4]), f"shown change of the divergence in step {k}")
        else:
            env.check(row["objective"] == float("inf"), "no change of the divergence in the first step")
    final(env, tape, r["coeffs"], r["exps"], r["success"])


def scipy(env, method, model, mode, sph, constraint):
    tape = Tape(env)
    F, M = env.mod("fit"), env.mod("measure")
    kind, n = "quad", 2
    grid, w = make_grid(env, kind, n)
    mod, nb = make_model(env, grid, model, True)
    f = env.posreals("f", n)
    fit = F.ScipyFit(grid, f, mod, measure=M.SquaredDifference(), method=method, spherical=sph, mask_value=0.)
    c0, e0 = env.posreals("c0_", nb), env.posreals("e0_", nb)
    oc, oe = C17.MODE[mode]
    dim = nb * (oc + oe)
    pts = [[env.real(f"y{j}_{k}", lo=1e-12, sample=(0.05, 3)) for k in range(dim)] for j in range(3)]
    z = env.vec(*[env.real(f"z{k}", lo=1e-12, sample=(0.05, 3)) for k in range(dim)])
    ok = env.bool("ok")

    def split(x):
        x = list(x)
        return env.vec(*(x[:nb] if oc else c0)), env.vec(*(x[-nb:] if oe else e0))

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        buf = env.vec(*pts[0])
        for j, p in enumerate(pts):
            for k in range(dim):
                buf[k] = p[k]
            fun(buf, *(args if isinstance(args, tuple) else (args,)))
            if callback is not None:
                if str(method).lower() == "slsqp":
                    callback(buf)
                else:
                    callback(buf, Res(x=buf, fun=0., nit=j))
        return Res(x=z, fun=env.real("zf"), jac=env.reals("zj", dim), success=ok, message="any message", nit=3, status=0, nfev=7, njev=7)

    env.hook("minimize", minimize)
    r = fit.run(c0, e0, opt_coeffs=oc, opt_expons=oe, disp=True, with_constraint=constraint)
    rows = tape.table(MEASURES) or tape.pairs(MEASURES)
    env.check(len(rows) == len(pts), "one row per iteration")
    for j, row in enumerate(rows[:len(pts)]):
        want = fit.goodness_of_fit(*split(pts[j]))
        for k, w in enumerate(MEASURES):
            same(env, row[w], want[k], f"shown {w} at iteration {j}")
    env.check("any message" in tape.text, "the optimiser's message is shown")
    cc, ee = split(z)
    final(env, tape, cc, ee, ok)
    env.eq(r["coeffs"], cc, "coefficients")
    env.eq(r["exps"], ee, "exponents")


def greedy(env, **case):
    tape = Tape(env)
    shown = C20.driver(env, disp=True, prints=tape.write, **case)
    if shown is None:
        return
    res, hist, states = shown
    rows = tape.table(("of functions", "s-type", "p-type") + MEASURES + ("objective",))
    env.check(len(rows) == len(states), "a row for the start and one per round")
    for j, (row, at) in enumerate(zip(rows, states)):
        h = hist[at]
        env.check(row["of functions"] == h["ns"] + h["np"], f"number of functions in row {j}")
        env.check(row["s-type"] == h["ns"], f"number of s-type functions in row {j}")
        env.check(row["p-type"] == h["np"], f"number of p-type functions in row {j}")
        same(env, row["integr"], h["v"], f"shown performance in row {j}")
        for w in MEASURES[1:]:
            same(env, row[w], 0, f"shown {w} in row {j}")
        if at:
            same(env, row["objective"], env.abs(h["v"] - hist[at - 1]["v"]), f"shown change of the objective in row {j}")
        else:
            env.check(j == 0 or row["objective"] == float("inf"), "no change of the objective before an extension is accepted")
    env.check(float(tape.says("Number of s-type") or -1) == res["num_s"] and float(tape.says("Number of p-type") or -1) == res["num_p"], "shown numbers of functions")
    same(env, tape.value(tape.says("Objective Function") or "nan"), res["fun"], "shown objective")
    env.check(res["exit_information"] in tape.text, "shown exit information")
    final(env, tape, res["coeffs"], res["exps"], res["success"])


def jobs(tier):
    T = tier == "thorough"
    out = []
    for model, mode in (("s", "both"), ("p", "coeffs"), ("s", "exps"), ("sp", "both"), ("ss", "coeffs"), ("sp", "exps")):
        for m in range(0, (5 if T else 4) if len(model) == 1 else (4 if T else 3)):
            out.append(Job(fixed_point, dict(model=model, mode=mode, m=m), concrete=6))
    for method in ("SLSQP", "trust-constr"):
        for j, mode in enumerate(("both", "coeffs", "exps")):
            for k, model in enumerate(("s", "sp", "mol", "molsp") + (("mol3", "ssspp") if T else ())):
                out.append(Job(scipy, dict(method=method, model=model, mode=mode, sph=(j + k) % 2 == 0, constraint=(j + k) % 3 == 0), concrete=6))
    cases = [("pick-one", "w", "s"), ("pick-one", "w", "sp"), ("pick-one", "ws", "sps"), ("pick-one", "wn", "sp"), ("pick-two", "w", "s"), ("pick-two", "ws", "ps"), ("pick-two-lose-one", "wsn", "p"), ("pick-one", "wwp", "pps")]
    for choice, kinds, winners in cases:
        for top in range(1, (6 if T else 5) + (choice == "pick-two")):
            out.append(Job(greedy, dict(choice=choice, top=top, kinds=kinds, winners=winners), concrete=6, max_paths=6000))
    return out
