"""C15: fixed points of the update are the stationary points of the constrained divergence."""
from vf.engine import Job
from props.common import basis_at, integral
from props.C14 import setup

FUNCTIONS = ["fit.KLDivergenceFPI.__init__", "fit.KLDivergenceFPI._update_params", "fit.KLDivergenceFPI.run", "fit._BaseFit.goodness_of_fit", "fit._BaseFit.integrate",
             "measure.KLDivergence.evaluate", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"grid": "2 points (3 in thorough for one centre, 4 for one function): any quadrature, radial trapezoid, cubic", "model": "normalised s, p, sp, around the origin or any centre, sspp, molecular with one to three centres"}
ASSUMPTIONS = ["density, coefficients, exponents and the model at the grid points are positive", "non-zero density integral, target and second moments",
               "the gradient of the reported divergence is the symbolic derivative of the executed goodness_of_fit"]


def stationary(env, kind, n, model, sph, target, separate=False):
    f = env.posreals("f", n)
    fit, mod, lay, r2, vw, tot, tgt = setup(env, kind, n, model, True, sph, target, f)
    nb = len(lay)
    c, e = env.posreals("c", nb), env.posreals("e", nb)
    b = [[basis_at(env, r2[k][i], e[k], lay[k][1], True) for i in range(n)] for k in range(nb)]
    g = [env.sum(c[k] * b[k][i] for k in range(nb)) for i in range(n)]
    for i in range(n):
        env.assume(g[i] > 0)
    a1 = [integral(env, vw, [f[i] / g[i] * b[k][i] for i in range(n)]) for k in range(nb)]
    a2 = [integral(env, vw, [f[i] / g[i] * b[k][i] * r2[k][i] for i in range(n)]) for k in range(nb)]
    for k in range(nb):
        env.assume(a2[k] != 0)
    gof = fit.goodness_of_fit
    val, ref = env.grad(lambda p: env.vec(gof(env.vec(*p[:nb]), env.vec(*p[nb:]))[4]), list(c) + list(e))
    env.eq(val[0], integral(env, vw, [f[i] * env.log(f[i] / g[i]) for i in range(n)]), "divergence")
    fit.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
    kw = dict(maxiter=1, c_threshold=-1., e_threshold=-1.)
    if separate:
        c1 = fit.run(c, e, opt_coeffs=True, opt_expons=False, **kw)["coeffs"]
        e1 = fit.run(c, e, opt_coeffs=False, opt_expons=True, **kw)["exps"]
    else:
        r = fit.run(c, e, **kw)
        c1, e1 = r["coeffs"], r["exps"]
    lam = fit.lagrange_multiplier
    for k in range(nb):
        env.eq(ref[0, k], -lam * c1[k] / c[k], f"gradient for coefficient {k}", tol=2e-5)
        # -c A2 (e'/e - 1) with e' = q A1 / A2, in two steps that need no division by A2
        q = env.frac(3 if lay[k][1] == "s" else 5, 2)
        env.eq(e1[k], q * a1[k] / a2[k], f"new exponent {k}")
        env.eq(ref[0, nb + k], -c[k] * (q * a1[k] / e[k] - a2[k]), f"gradient for exponent {k}", tol=2e-5)


def combine(env):
    """the two steps above give the stated form, for any averages."""
    q, a1, a2, e, c = (env.real(k, sample=(0.2, 3)) for k in ("q", "A1", "A2", "e", "c"))
    env.assume(a2 != 0)
    env.assume(e != 0)
    env.eq(-c * (q * a1 / e - a2), -c * a2 * (q * a1 / a2 / e - 1), "combined form")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for j, (kind, model, sph) in enumerate([("quad", "sp", True), ("quad3", "s", False), ("quad", "mol", False), ("quad3", "sp", False), ("radial", "ss", True), ("cubic", "s", False),
                                            ("quad", "p", True), ("quad", "molsp", True), ("quad", "molps", True)]):
        for target in ((True, False) if T else (j % 2 == 0,)):
            for separate in ((True, False) if T else (j % 3 == 0,)):
                out.append(Job(stationary, dict(kind=kind, n=3 if T and kind == "quad" and model != "molsp" else 2, model=model, sph=sph, target=target, separate=separate), concrete=6))
    for kind, n, model in (("quad", 2, "sp@"), ("quad", 1, "mol3"), ("quad", 1, "sspp"), ("quad", 4, "s")):
        out.append(Job(stationary, dict(kind=kind, n=n, model=model, sph=False, target=True, separate=False), concrete=4))
    out.append(Job(combine, {}, concrete=2))
    return out
