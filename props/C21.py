"""C21: one greedy round: candidates, selection, refinement."""
import inspect

from vf.engine import Job
from props.C18 import KINDS
from props.common import paired
from props.greedy_common import Stop, build, key_of, split

FUNCTIONS = ["greedy.GreedyStrategy.run", "greedy.GreedyStrategy._find_best_lparams", "greedy.GreedyStrategy._split_parameters", "greedy.GreedyStrategy.eval_obj_function",
             "greedy.get_next_choices", "greedy.get_two_next_choices", "greedy.pick_two_lose_one", "greedy.GreedyLeastSquares.get_optimization_routine",
             "greedy.GreedyKLFPI.get_optimization_routine"]
BOUNDS = {"start": "1 s; 2 s; 1 s and 1 p; 3 functions in some; up to 2 (4) rejected rounds before", "choices": "pick-one with any order of the candidates' objectives, pick-two and pick-two-lose-one with any candidate cheapest",
          "values": "any coefficients, exponents, factor; objectives any reals, or every other one not a number"}
ASSUMPTIONS = ["the inner optimiser is a stand-in returning parameters of the right length with any values", "with no p functions yet, the p candidates are random numbers: their place in the vector and their ranges are checked"]
CHOICE = {"pick-one": "one", "pick-two": "two", "pick-two-lose-one": "lose"}


def one_round(env, choice, path, order):
    """path: types accepted in the rounds before, upper case where the refinement is rejected; order 'any' (all objectives free), 'nan0' / 'nan1' (every other one free, the
    rest not numbers) or a number (that candidate cheapest)."""
    inc = 2 if choice == "pick-two" else 1
    factor = env.real("factor", lo=0, lo_strict=True, sample=(1.1, 3))
    values = {}
    cur = dict(p=env.vec(env.real("c0"), env.posreals("a0", 1)[0]), ns=1, np=0)
    values[key_of(env, cur["p"])] = env.frac(0)
    calls, rounds, rejected = [], [0], [0]
    win = [None]

    def objective(params):
        k = key_of(env, params)
        if k not in values:
            env.check(False, "objective evaluated for parameters nobody returned")
            return env.frac(1)
        return values[k]

    def optimise(strategy, params, local):
        m = strategy.model
        ns, np_ = m.num_s, m.num_p
        n = ns + np_
        last = rounds[0] == len(path)
        if local:
            calls.append((params, ns, np_))
            k = len(calls) - 1
            if not last:
                # earlier rounds: the first candidate of the wanted type is cheapest
                first = path[rounds[0]].lower() == ("s" if ns > cur["ns"] else "p") and win[0] is None
                if first:
                    win[0] = k
                v = env.frac(0 if first else 1)
            elif order == "any":
                v = env.real(f"v{k}")
            elif order in ("nan0", "nan1"):
                # every other objective is not a number
                v = env.real(f"v{k}") if k % 2 == int(order[3]) else float("nan")
            else:
                v = env.real("v") + (0 if k == order else 1 + k)
            tag = env.frac(100000 * (rounds[0] + 1) + 100 * k)
            out = env.vec(*[tag + env.frac(i) for i in range(2 * n)])
            values[key_of(env, out)] = v
            calls[k] = (params, ns, np_, out, v)
            return out
        if last:
            calls.append((params, ns, np_))
            raise Stop
        r = rounds[0]
        rounds[0] += 1
        win[0] = None
        del calls[:]
        step = env.posreals(f"step{r}", n)
        exps = [env.sum(step[j] for j in range(i + 1)) + env.frac(i) for i in range(n)]
        out = env.vec(*[env.real(f"c{r + 1}_{i}") for i in range(n)], *exps)
        if path[r].isupper():
            rejected[0] += 1
            values[key_of(env, out)] = env.frac(10)
            return out
        rejected[0] = 0
        values[key_of(env, out)] = env.frac(-10 * (r + 1))
        cur.update(p=out, ns=ns, np=np_)
        return out

    strategy, model, fit = build(env, choice, cur["p"], optimise, objective)
    env.hook("print", lambda *a, **k: None)
    _, exc = env.attempt(strategy.run, factor, d_threshold=0., max_numb_funcs=30)
    env.check(isinstance(exc, Stop), f"a candidate is refined ({type(exc).__name__}: {exc})")
    if not isinstance(exc, Stop):
        return
    refined = calls.pop()
    # every rejection since the last acceptance doubles the factor
    factor = factor * 2 ** rejected[0]
    sc, pc, se, pe = split(cur["p"], cur["ns"], cur["np"])
    ref = KINDS[CHOICE[choice]][1]
    want_s = [(c, e) for c, e in ref(env, factor, [x for x in sc], [x for x in se], env.frac(100))]
    want_s = [env.vec(*c, *pc, *e, *pe) for c, e in want_s]
    S = [c for c in calls if c[1] == cur["ns"] + inc and c[2] == cur["np"]]
    P = [c for c in calls if c[1] == cur["ns"] and c[2] == cur["np"] + inc]
    env.check(len(S) + len(P) == len(calls), "every candidate has more s or more p functions")
    env.check(len(S) == len(want_s), "number of s candidates")
    for k, (g, w) in enumerate(zip(paired(env, [c[0] for c in S], want_s), want_s)):
        if g is not None:
            env.eq(g, w, f"s candidate {k}")
    if cur["np"] == 0:
        env.check(len(P) >= 1, "p candidates")
        for c in P:
            p = c[0]
            n = cur["ns"] + inc
            env.check(len(p) == 2 * n, "length of a p candidate")
            env.eq(p[:cur["ns"]], sc, "s coefficients first")
            env.eq(p[n:n + cur["ns"]], se, "s exponents after the coefficients")
        env.check(len(P) == 3, "three guesses for the first p functions")
        for lo, hi in ((0, 1), (1, 10), (10, 100)):
            env.check(env.or_(*[env.and_(*[env.and_(x >= lo, x <= hi) for x in list(c[0][cur["ns"]:cur["ns"] + inc]) + list(c[0][n + cur["ns"]:])]) for c in P]),
                      f"one of them between {lo} and {hi}")
    else:
        want_p = [(c, e) for c, e in ref(env, factor, [x for x in pc], [x for x in pe], env.frac(100))]
        want_p = [env.vec(*sc, *c, *se, *e) for c, e in want_p]
        env.check(len(P) == len(want_p), "number of p candidates")
        for k, (g, w) in enumerate(zip(paired(env, [c[0] for c in P], want_p), want_p)):
            if g is not None:
                env.eq(g, w, f"p candidate {k}")
    # the refined one
    env.check(refined[0] is not None, "some candidate is refined, however large the objectives")
    if refined[0] is None:
        return
    chosen = [c for c in calls if key_of(env, c[3]) == key_of(env, refined[0])]
    env.check(len(chosen) == 1, "an optimised candidate is refined")
    if chosen:
        c = chosen[0]
        def number(v):
            return not (isinstance(v, float) and v != v)

        env.check(number(c[4]), "the refined candidate's objective is a number")
        for d in calls:
            if number(d[4]) and number(c[4]):
                env.check(c[4] <= d[4], "the cheapest candidate is refined")
        env.check(refined[1] == c[1] and refined[2] == c[2], "its type of function is added")


def tolerances(env, cls, local):
    """the inner optimisers get the guess and the local or global settings."""
    G, F = env.mod("greedy"), env.mod("fit")
    x0 = env.pos("x0")
    grid = env.mod("grid").ClenshawRadialGrid(1, 0, 0, extra_pts=[x0, x0 + 1], dtype=float)
    f = env.posreals("f", 2)
    marks = [env.pos(k) for k in ("m1", "m2", "m3", "m4", "m5", "m6")]
    con = env.flag("con")
    nn = env.posreals("nnls", 1)
    env.hook("nnls", lambda a, b, *r, **k: (nn, 0.))
    if cls == "GreedyLeastSquares":
        g = G.GreedyLeastSquares(grid, f, local_tol=marks[0], global_tol=marks[1], l_maxiter=11, g_maxiter=22, with_constraint=con)
    else:
        g = G.GreedyKLFPI(grid, f, "pick-one", *marks, l_maxiter=11, g_maxiter=22)
    fit = g.fitting_obj
    sig = inspect.signature(type(fit).run)
    seen = []
    rc, re = env.posreals("rc", 1), env.posreals("re", 1)

    def run(*a, **k):
        b = sig.bind(fit, *a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
        return {"coeffs": rc, "exps": re, "fun": 0., "success": True}

    fit.run = run
    c, e = env.pos("c"), env.pos("e")
    out = g.get_optimization_routine(env.vec(c, e), local=local)
    env.eq(out, env.vec(rc[0], re[0]), "optimised parameters")
    env.check(len(seen) == 1, "one optimisation")
    a = seen[0]
    env.eq(a["maxiter"], 11 if local else 22, "iteration limit")
    env.eq(a["e0"], env.vec(e), "exponents of the guess")
    env.check(a["opt_coeffs"] and a["opt_expons"], "both optimised")
    if cls == "GreedyLeastSquares":
        env.eq(a["tol"], marks[0 if local else 1], "tolerance")
        env.check(a["with_constraint"] == con, "constraint")
        env.eq(a["c0"], nn, "non-negative least-squares coefficients")
    else:
        env.eq(a["c0"], env.vec(c), "coefficients of the guess")
        gm, lm = marks[:3], marks[3:]
        for name, x in zip(("c_threshold", "e_threshold", "d_threshold"), lm if local else gm):
            env.eq(a[name], x, name)


def jobs(tier):
    T = tier == "thorough"
    out = []
    for path in ("", "s", "p") + (("ps", "sp", "pp") if T else ("sp",)):
        out.append(Job(one_round, dict(choice="pick-one", path=path, order="any"), concrete=6, max_paths=4000))
    for path in ("", "p") + (("s", "sp") if T else ()):
        for order in ("nan0", "nan1"):
            out.append(Job(one_round, dict(choice="pick-one", path=path, order=order), concrete=4, max_paths=4000))
    for path in ("S", "SP", "sP", "pS", "PPs") + (("SSSS", "PpS", "spSP") if T else ()):
        out.append(Job(one_round, dict(choice="pick-one", path=path, order=0), concrete=4, max_paths=4000))
    for choice, path in (("pick-two", "S"), ("pick-two", "pS"), ("pick-two-lose-one", "P"), ("pick-two-lose-one", "sS")):
        out.append(Job(one_round, dict(choice=choice, path=path, order=1), concrete=4, max_paths=4000))
    counts = {("pick-two", ""): 8, ("pick-two", "p"): 14, ("pick-two", "s"): 17, ("pick-two-lose-one", ""): 18, ("pick-two-lose-one", "p"): 30, ("pick-two-lose-one", "s"): 39}
    for (choice, path), n in counts.items():
        for k in range(0, n, 1 if T else 3):
            out.append(Job(one_round, dict(choice=choice, path=path, order=k), concrete=2))
    for cls in ("GreedyLeastSquares", "GreedyKLFPI"):
        for local in (True, False):
            out.append(Job(tolerances, dict(cls=cls, local=local), concrete=4))
    return out
