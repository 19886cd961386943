"""C31: the greedy strategies optimise, compare and report the objective of the problem they are given."""
from vf.engine import Job
from props.common import atomic_value, basis_at, integral, make_grid, volume_weights
from props.C13 import Res, bound_pairs

FUNCTIONS = ["greedy.GreedyLeastSquares.__init__", "greedy.GreedyKLFPI.__init__", "greedy.GreedyStrategy.__init__", "greedy.GreedyStrategy.eval_obj_function", "greedy.GreedyStrategy.store_errors",
             "greedy.GreedyLeastSquares.get_optimization_routine", "greedy.GreedyKLFPI.get_optimization_routine", "greedy.GreedyStrategy.run", "fit.ScipyFit.*", "fit.KLDivergenceFPI.*",
             "measure.*.evaluate", "model.AtomicGaussianDensity.*", "grid.*.integrate"]
BOUNDS = {"grid": "2 points (3 in thorough): any positive quadrature, radial trapezoid", "model": "1 to 3 s-type and 0 to 2 p-type functions (0 to 3 and 0 to 2 in thorough)",
          "options": "spherical or not, target given or not, constraint on/off, SLSQP and trust-constr, normalised or not, any mask value", "optimiser": "any two evaluation points, any returned point"}
ASSUMPTIONS = ["scipy.optimize.minimize and nnls are arbitrary stand-ins", "density positive, coefficients and exponents positive", "least squares: model above 1e-9 at the points (the reported Kullback-Leibler measure masks smaller ones)", "one fixed-point step stands for the fixed-point routine (its control is C17)"]
STEP = {"pick-one": 1, "pick-two": 2, "pick-two-lose-one": 1}


def strategy(env, cls, kind, n, sph, target, choice, normalize=False, masked=False, **more):
    G = env.mod("greedy")
    grid, w = make_grid(env, kind, n)
    f = env.posreals("f", n)
    vw = volume_weights(env, grid, w, sph)
    tot = integral(env, vw, f)
    tgt = env.pos("N") if target else None
    if cls == "ls":
        s = G.GreedyLeastSquares(grid, f, choice, normalize=normalize, integral_dens=tgt, spherical=sph, **more)
        mask = env.frac(0)
    else:
        env.assume(tot != 0)
        mask = env.real("mask", lo=0, sample=(0, 0.2)) if masked else env.frac(0)
        normalize = True
        s = G.GreedyKLFPI(grid, f, choice, integral_dens=tgt, spherical=sph, mask_value=mask, **more)
    return s, grid, f, vw, (tgt if target else tot), mask, normalize


def kl(env, f, g, mask, i):
    return env.frac(0) if env.holds(g[i] <= mask) else f[i] * env.log(f[i] / g[i])


def objective(env, cls, kind, n, sph, target, choice, ns, np_, normalize=False, masked=False):
    s, grid, f, vw, tgt, mask, normalize = strategy(env, cls, kind, n, sph, target, choice, normalize, masked)
    env.check(s.grid is grid and s.numb_func_increase == STEP[choice], "grid and step")
    env.eq(s.density, f, "density")
    env.eq(s.integral_dens, tgt, "target integral")
    env.check(s.model.num_s == 1 and s.model.num_p == 0, "starts with one s-type function")
    s.model.change_numb_s_and_numb_p(ns, np_)
    s.num_s, s.num_p = ns, np_
    m = ns + np_
    c, e = env.posreals("c", m), env.posreals("e", m)
    params = env.np.hstack((c, e))
    g = atomic_value(env, grid.points, [0], ns, np_, c, e, normalize)
    for i in range(n):
        env.assume(g[i] > (env.frac(1, 10 ** 9) if cls == "ls" else 0))
    sp = env.snapshot(params)
    sq = integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)])
    div = integral(env, vw, [kl(env, f, g, mask, i) for i in range(n)])
    env.eq(s.eval_obj_function(params), sq if cls == "ls" else div, "objective")
    s.err_arr = []
    s.store_errors(params)
    s.store_errors(params)
    env.check(len(s.err_arr) == 2, "one history entry per accepted model")
    dif = [env.abs(f[i] - g[i]) for i in range(n)]
    want = [integral(env, vw, g), integral(env, vw, dif), env.max(dif), sq, div]
    for row in s.err_arr:
        env.check(len(row) == 5, "five measures")
        for name, x, y in zip(("integral", "L1", "L infinity", "least squares", "Kullback-Leibler"), row, want):
            env.eq(x, y, "performance: " + name)
    env.unchanged(params, sp, "parameters unchanged")


def problem(env, kind, n, sph, target, ns, np_, method, constraint, local, normalize):
    """least squares: what reaches scipy."""
    s, grid, f, vw, tgt, mask, normalize = strategy(env, "ls", kind, n, sph, target, "pick-one", normalize, method=method, with_constraint=constraint,
                                                    local_tol=1e-3, global_tol=1e-6, l_maxiter=11, g_maxiter=22)
    s.model.change_numb_s_and_numb_p(ns, np_)
    m = ns + np_
    e0 = env.posreals("e0_", m)
    guess = env.np.hstack((env.posreals("c0_", m), e0))
    start = env.posreals("nn", m)
    z = env.posreals("z", 2 * m)
    calls = []
    env.hook("nnls", lambda a, b, *r, **k: (start, 0.))
    env.hook("print", lambda *a, **k: None)

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        calls.append(1)
        args = args if isinstance(args, tuple) else (args,)
        env.check(str(method).lower() == want, "method")
        env.eq(env.vec(*x0[m:]), e0, "exponents of the guess")
        env.eq(env.vec(*x0[:m]), start, "non-negative least-squares coefficients")
        env.check((options or {}).get("maxiter") == (11 if local else 22), "iteration limit")
        t = (options or {}).get("ftol" if want == "slsqp" else "xtol", tol)
        env.check(t == (1e-3 if local else 1e-6), "tolerance")
        for lo, hi in bound_pairs(bounds, 2 * m):
            env.check(lo >= 0 and lo <= 1e-8 and (hi is None or hi == float("inf")), "bounded below by (almost) zero only")
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        env.check(len(cons) == (1 if constraint else 0), "constraint present exactly when requested")
        for j in range(2):
            p = env.posreals(f"y{j}_", 2 * m)
            g = atomic_value(env, grid.points, [0], ns, np_, p[:m], p[m:], normalize)
            out = fun(env.vec(*p), *args)
            obj = out[0] if isinstance(out, tuple) else out
            env.eq(obj, integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]), f"objective at point {j}")
            for con in cons:
                a = con.get("args", ()) if isinstance(con, dict) else ()
                fn, low = (con["fun"], 0) if isinstance(con, dict) else (con.fun, con.lb)
                v = fn(env.vec(*p), *a) - low
                d = tgt - integral(env, vw, g)
                env.eq(v * v, d * d, f"constraint at point {j}")
        return Res(x=z, fun=env.real("zf"), jac=env.reals("zj", 2 * m), success=True, message="any", nit=3, status=0, nfev=7, njev=7)

    want = method.lower()
    env.hook("minimize", minimize)
    sg = env.snapshot(guess)
    out = s.get_optimization_routine(guess, local=local)
    env.check(len(calls) == 1, "one optimisation")
    env.check(len(out) == 2 * m, "as many parameters as the guess has")
    env.eq(out, z, "the optimiser's parameters, coefficients first")
    env.unchanged(guess, sg, "guess unchanged")


def fixed_point(env, kind, n, sph, target, ns, np_, local, masked):
    """Kullback-Leibler: one step of the routine is the documented update with the strategy's target and mask."""
    lim = dict(l_maxiter=1, g_maxiter=0) if local else dict(l_maxiter=0, g_maxiter=1)
    s, grid, f, vw, tgt, mask, _ = strategy(env, "kl", kind, n, sph, target, "pick-one", True, masked, **lim)
    s.model.change_numb_s_and_numb_p(ns, np_)
    m = ns + np_
    c, e = env.posreals("c", m), env.posreals("e", m)
    r2 = [grid.points[i] * grid.points[i] for i in range(n)]
    b = [[basis_at(env, r2[i], e[k], "s" if k < ns else "p", True) for i in range(n)] for k in range(m)]
    g = [env.sum(c[k] * b[k][i] for k in range(m)) for i in range(n)]
    ratio = [1 if (masked or not ns) and env.holds(g[i] <= mask) else f[i] / g[i] for i in range(n)]
    a1 = [integral(env, vw, [ratio[i] * b[k][i] for i in range(n)]) for k in range(m)]
    a2 = [integral(env, vw, [ratio[i] * b[k][i] * r2[i] for i in range(n)]) for k in range(m)]
    for k in range(m):
        env.assume(a2[k] != 0)
    tot = integral(env, vw, f)
    s.fitting_obj.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
    guess = env.np.hstack((c, e))
    sg = env.snapshot(guess)
    out = s.get_optimization_routine(guess, local=local)
    env.check(len(out) == 2 * m, "as many parameters as the guess has")
    for k in range(m):
        env.eq(out[k], c[k] * a1[k] * tgt / tot, f"coefficient {k}")
        env.eq(out[m + k], env.frac(3 if k < ns else 5, 2) * a1[k] / a2[k], f"exponent {k}")
    env.unchanged(guess, sg, "guess unchanged")


def one_function(env, cls, kind, n, sph, target, top):
    """no room for a second function: the start is the result."""
    s, grid, f, vw, tgt, mask, normalize = strategy(env, cls, kind, n, sph, target, "pick-two" if top == 2 else "pick-one")
    c, e = env.pos("c"), env.pos("e")
    s.get_best_one_function_solution = lambda: env.vec(c, e)
    r = s.run(2., d_threshold=1e-8, max_numb_funcs=top)
    g = atomic_value(env, grid.points, [0], 1, 0, [c], [e], normalize)
    for i in range(n):
        env.assume(g[i] > 0)
    want = integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]) if cls == "ls" else integral(env, vw, [kl(env, f, g, mask, i) for i in range(n)])
    env.eq(r["coeffs"], env.vec(c), "coefficient")
    env.eq(r["exps"], env.vec(e), "exponent")
    env.check(r["num_s"] == 1 and r["num_p"] == 0, "one s-type function")
    env.eq(r["fun"], want, "objective")
    env.check(len(r["performance"]) == 1 and len(r["parameters_iteration"]) == 1, "one history entry")
    env.eq(r["performance"][0][3 if cls == "ls" else 4], want, "performance holds the objective")


def jobs(tier):
    T = tier == "thorough"
    out = []
    sizes = ((1, 0), (1, 1), (2, 0), (1, 2), (3, 1)) + (((2, 2), (0, 1), (0, 2)) if T else ())
    choices = list(STEP)
    k = 0
    for cls in ("ls", "kl"):
        for kind in ("qpos", "radial"):
            for ns, np_ in sizes:
                for sph in (False, True):
                    k += 1
                    for target in ((True, False) if T else (k % 2 == 0,)):
                        out.append(Job(objective, dict(cls=cls, kind=kind, n=3 if T and ns + np_ == 1 else 2, sph=sph, target=target, choice=choices[k % 3], ns=ns, np_=np_, normalize=k % 3 == 0,
                                                       masked=k % 2 == 1), concrete=6))
    k = 0
    for kind in ("qpos", "radial"):
        for ns, np_ in sizes:
            for local in (True, False):
                for method in (("SLSQP", "trust-constr") if T else (("SLSQP", "trust-constr")[k % 2],)):
                    k += 1
                    out.append(Job(problem, dict(kind=kind, n=2, sph=k % 4 < 2, target=k % 3 == 0, ns=ns, np_=np_, method=method, constraint=(k // 2) % 2 == 0, local=local, normalize=k % 5 < 2), concrete=6))
                for masked in ((True, False) if T and ns + np_ < 4 else (k % 2 == 0 and ns + np_ < 3,)):
                    out.append(Job(fixed_point, dict(kind=kind, n=2, sph=k % 4 < 2, target=k % 3 > 0, ns=ns, np_=np_, local=local, masked=masked), concrete=6))
    for cls in ("ls", "kl"):
        for j, top in enumerate((0, 1, 2)):
            out.append(Job(one_function, dict(cls=cls, kind="qpos", n=2, sph=j % 2 == 0, target=j == 1, top=top), concrete=6))
    return out
