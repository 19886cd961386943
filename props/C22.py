"""C22: starting points of the greedy fits."""
from vf.engine import Job
from props.common import atomic_value, exponents, integral, make_grid, volume_weights

FUNCTIONS = ["greedy.GreedyLeastSquares.get_best_one_function_solution", "greedy.GreedyLeastSquares._solve_one_function_weight", "greedy.GreedyLeastSquares.get_optimization_routine",
             "greedy.GreedyLeastSquares._create_cofactor_matrix", "greedy.GreedyLeastSquares.optimize_using_nnls", "greedy.GreedyKLFPI.get_best_one_function_solution",
             "greedy.GreedyStrategy.eval_obj_function", "fit.ScipyFit.func", "fit.KLDivergenceFPI.run"]
BOUNDS = {"grid": "2 to 4 points, and 8: radial trapezoid, uniform, any positive quadrature; two distinct radii", "density": "one Gaussian with any positive height and any exponent; for the rest any positive density",
          "design matrix": "1 to 5 s-type and 0 to 4 p-type functions, any exponents, any coefficients"}
ASSUMPTIONS = ["least-squares starts use an unnormalised model", "scipy.optimize.nnls is a stand-in that records the matrix and returns any coefficients"]


def gaussian(env, kind, n, spherical, normalize=False):
    grid, w = make_grid(env, kind, n)
    r = grid.points
    if kind == "qpos":
        env.assume(r[0] * r[0] < r[1] * r[1])
    c, a = env.pos("c"), env.real("a")
    dens = env.vec(*[c * env.exp(-(a * (r[i] * r[i]))) for i in range(n)])
    sd = env.snapshot(dens)
    g = env.mod("greedy").GreedyLeastSquares(grid, dens, spherical=spherical, normalize=normalize)
    out = g.get_best_one_function_solution()
    env.check(len(out) == 2, "a coefficient and an exponent")
    env.check(out[0] > 0, "height is positive")
    env.eq(env.log(out[0]), env.log(c), "height", tol=1e-5)
    env.eq(out[1], a, "exponent", tol=1e-5)
    env.unchanged(dens, sd, "density unchanged")


def gone(env, kind, n, zeros, spherical):
    """a Gaussian whose value is no longer representable (zero) at some of the points; two distinct radii remain."""
    grid, w = make_grid(env, kind, n)
    r = grid.points
    left = [i for i in range(n) if i not in zeros]
    if kind == "qpos":
        env.assume(r[left[0]] * r[left[0]] < r[left[1]] * r[left[1]])
    c, a = env.pos("c"), env.real("a")
    dens = env.vec(*[env.frac(0) if i in zeros else c * env.exp(-(a * (r[i] * r[i]))) for i in range(n)])
    g = env.mod("greedy").GreedyLeastSquares(grid, dens, spherical=spherical, normalize=False)
    out = g.get_best_one_function_solution()
    env.check(len(out) == 2 and not env.isnan(out[0]) and not env.isnan(out[1]), "a coefficient and an exponent, both numbers")
    env.check(out[0] > 0, "height is positive")
    env.eq(env.log(out[0]), env.log(c), "height", tol=1e-5)
    env.eq(out[1], a, "exponent", tol=1e-5)


def cheapest(env, n):
    grid, w = make_grid(env, "qpos", n)
    env.assume(grid.points[0] < grid.points[1])
    f = env.posreals("f", n)
    seen = []

    class Strategy(env.mod("greedy").GreedyLeastSquares):
        def eval_obj_function(self, params):
            v = env.real(f"v{len(seen)}")
            seen.append((params, v))
            return v

    out = Strategy(grid, f).get_best_one_function_solution()
    env.check(len(seen) >= 1, "candidates are evaluated")
    env.check(env.or_(*[env.and_(*[out[i] == p[i] for i in range(2)], *[v <= x for _, x in seen]) for p, v in seen]), "the cheapest one-function candidate is returned")


def kl(env, kind, n, target):
    grid, w = make_grid(env, kind, n)
    r = grid.points
    f = env.posreals("f", n)
    vw = volume_weights(env, grid, w, True)
    tgt = env.pos("N") if target else None
    m2 = integral(env, vw, [f[i] * r[i] * r[i] for i in range(n)])
    env.assume(m2 > 0)
    total = integral(env, vw, f)
    sf = env.snapshot(f)
    g = env.mod("greedy").GreedyKLFPI(grid, f, integral_dens=tgt, spherical=True, mask_value=env.frac(0))
    out = g.get_best_one_function_solution()
    N = tgt if target else total
    env.check(len(out) == 2, "a coefficient and an exponent")
    env.eq(out[0], N, "coefficient is the target")
    env.eq(out[1], N * env.frac(3, 2) / m2, "exponent")
    env.unchanged(f, sf, "density unchanged")


def optimum(env, kind, n):
    """one fixed-point step from any one-function guess ends at the start (target = the density's own integral), so the start is the optimum."""
    grid, w = make_grid(env, kind, n)
    r = grid.points
    f = env.posreals("f", n)
    vw = volume_weights(env, grid, w, True)
    env.assume(integral(env, vw, [f[i] * r[i] * r[i] for i in range(n)]) > 0)
    g = env.mod("greedy").GreedyKLFPI(grid, f, spherical=True, mask_value=env.frac(0))
    out = g.get_best_one_function_solution()
    coeffs, exps = env.posreals("c", 1), env.posreals("e", 1)
    res = g.fitting_obj.run(coeffs, exps, opt_coeffs=True, opt_expons=True, maxiter=1, c_threshold=env.frac(0), e_threshold=env.frac(0), d_threshold=env.frac(0))
    env.eq(res["coeffs"], out[:1], "one step leads to the coefficient", tol=1e-6)
    env.eq(res["exps"], out[1:], "one step leads to the exponent", tol=1e-6)


def matrix(env, kind, n, ns, np_):
    grid, w = make_grid(env, kind, n)
    f = env.posreals("f", n)
    nb = ns + np_
    g = env.mod("greedy").GreedyLeastSquares(grid, f, normalize=False)
    g.model.change_numb_s_and_numb_p(ns, np_)
    e, c0, c = env.reals("e", nb), env.reals("c0", nb), env.posreals("c", nb)
    seen, runs = [], []

    def nnls(a, b, *r, **k):
        seen.append((a, b))
        return c, env.frac(0)

    def run(c0, e0, *a, **k):
        runs.append((c0, e0))
        return {"coeffs": c0, "exps": e0}

    env.hook("nnls", nnls)
    g.fitting_obj.run = run
    se, sf = env.snapshot(e), env.snapshot(f)
    for local in (True, False):
        del seen[:], runs[:]
        out = g.get_optimization_routine(env.np.hstack((c0, e)), local=local)
        env.check(len(seen) == 1 and len(runs) == 1, "one linear problem, one optimisation")
        a, b = seen[0]
        env.check(a.shape == (n, nb), "one row per point, one column per function")
        if a.shape != (n, nb):
            return
        env.eq(b, f, "right-hand side is the density")
        val = g.model.evaluate(c0, e)
        doc = atomic_value(env, grid.points, [0], ns, np_, c0, e, False)
        for i in range(n):
            row = env.sum(a[i, k] * c0[k] for k in range(nb))
            env.eq(row, val[i], f"matrix times coefficients is the model {i}")
            env.eq(row, doc[i], f"matrix times coefficients is the documented sum {i}")
        env.eq(runs[0][0], c, "optimised from the linear solution")
        env.eq(runs[0][1], e, "optimised from the given exponents")
        env.eq(out, env.np.hstack((c, e)), "result")
    env.unchanged(e, se, "exponents unchanged")
    env.unchanged(f, sf, "density unchanged")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for kind in ("qpos", "radial", "uniform"):
        for n in ((2, 3, 4) if T else (2, 3)):
            for sph in (False, True):
                out.append(Job(gaussian, dict(kind=kind, n=n, spherical=sph), concrete=6))
        for n, zeros in ((3, (2,)), (3, (0,)), (4, (2, 3))) + (((4, (1,)), (5, (2, 3, 4))) if T else ()):
            out.append(Job(gone, dict(kind=kind, n=n, zeros=zeros, spherical=len(zeros) == 1), concrete=6))
        out.append(Job(matrix, dict(kind=kind, n=2, ns=1, np_=0), concrete=4))
        out.append(Job(matrix, dict(kind=kind, n=2, ns=2, np_=1), concrete=4))
        out.append(Job(matrix, dict(kind=kind, n=2, ns=5, np_=4), concrete=4))
        out.append(Job(matrix, dict(kind=kind, n=8, ns=1, np_=1), concrete=4))
        out.append(Job(kl, dict(kind=kind, n=8, target=True), concrete=4))
        out.append(Job(matrix, dict(kind=kind, n=3 if T else 2, ns=3 if T else 1, np_=2), concrete=4))
        for n in ((2, 3, 4) if T else (2, 3)):
            for target in (False, True):
                out.append(Job(kl, dict(kind=kind, n=n, target=target), concrete=6))
            if n < 4 or kind == "uniform":
                out.append(Job(optimum, dict(kind=kind, n=n), concrete=6))
    out.append(Job(cheapest, dict(n=2), concrete=8))
    if T:
        out.append(Job(cheapest, dict(n=3), concrete=8))
    return out
