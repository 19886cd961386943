"""C16: descent of the divergence under a coefficient step."""
from vf.engine import Job
from props.common import basis_at, integral
from props.C14 import layout, setup

FUNCTIONS = ["fit.KLDivergenceFPI.__init__", "fit.KLDivergenceFPI._update_params", "fit.KLDivergenceFPI.run", "fit._BaseFit.goodness_of_fit", "fit._BaseFit.integrate",
             "measure.KLDivergence.evaluate", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"grid": "2 points (3 in thorough): any positive quadrature weights, radial trapezoid, cubic", "functions": "1 to 3, s and p, one and two centres, normalised or not"}
ASSUMPTIONS = ["non-negative density with positive integral (points of zero density included), positive coefficients summing to the target, exponents positive, model positive at the points",
               "log lies below its tangents (instances supplied to the solver)"]


def descent(env, kind, n, model, normalize, sph, target, zero=False):
    if zero:
        fp = env.posreals("f", n - 1)
        f = env.arr([env.frac(0)] + [fp[i] for i in range(n - 1)])
    else:
        f = env.posreals("f", n)
    nb = len(layout(model))
    c0 = env.posreals("c", nb if target else nb - 1)
    tgt = env.sum(c0[k] for k in range(nb)) if target else False
    fit, mod, lay, r2, vw, tot, tgt = setup(env, kind, n, model, normalize, sph, tgt, f)
    env.assume(tot > 0)
    for i in range(n):
        env.assume(vw[i] > 0)
    e = env.posreals("e", nb)
    if target:
        c = c0
    else:
        last = tgt - env.sum(c0[k] for k in range(nb - 1))
        env.assume(last > 0)
        c = env.vec(*[c0[k] for k in range(nb - 1)], last)
    b = [[basis_at(env, r2[k][i], e[k], lay[k][1], normalize) for i in range(n)] for k in range(nb)]
    g = [env.sum(c[k] * b[k][i] for k in range(nb)) for i in range(n)]
    for i in range(n):
        for k in range(nb):
            env.assume(b[k][i] > 0)
        env.fact(g[i] > 0)
    before = fit.goodness_of_fit(c, e)[4]
    a = [integral(env, vw, [f[i] * b[k][i] / g[i] for i in range(n)]) * tgt / tot for k in range(nb)]
    for k in range(nb):
        env.fact(a[k] > 0)
        env.fact(c[k] * a[k] > 0)
    g1 = [env.sum(c[j] * a[j] * b[j][i] for j in range(nb)) for i in range(n)]
    for i in range(n):
        env.fact(g1[i] > 0)
    r = fit.run(c, e, opt_coeffs=True, opt_expons=False, maxiter=1, c_threshold=-1., e_threshold=-1.)
    c1 = r["coeffs"]
    after = r["fun"][-1]
    lam = tot / tgt
    same = env.and_(*[c1[k] == c[k] * a[k] for k in range(nb)])
    if env.fact(same, keep=False):
        total = env.sum(c[k] * a[k] for k in range(nb)) == tgt
        env.fact(total, keep=False)
        for k in range(nb):
            env.lemma(c[k] * a[k] * lam * env.log(a[k]) >= c[k] * a[k] * lam - c[k] * lam)
        for i in range(n):
            # Jensen: the weights c_k b_k / g are non-negative and sum to one
            env.lemma(env.sum(vw[i] * f[i] * c[k] * b[k][i] / g[i] * env.log(a[k]) for k in range(nb)) <= vw[i] * f[i] * (env.log(g1[i]) - env.log(g[i])))
    env.le(after, before, "divergence does not increase", tol=1e-9)


def jobs(tier):
    T = tier == "thorough"
    out = []
    shapes = [("qpos", "s", False, False), ("qpos", "ss", True, False), ("qpos", "sp", False, True), ("qpos", "p", True, True), ("qpos", "mol", False, False),
              ("radial", "sp", True, False), ("cubic", "ss", False, False), ("cubic", "sp", False, True), ("qpos", "ssp", True, False)]
    for j, (kind, model, sph, zero) in enumerate(shapes):
        for normalize in ((True, False) if T else (j % 2 == 0 and model != "ssp",)):
            # without an explicit target one coefficient is eliminated, which makes longer terms
            for target in ((True, False) if T and len(model) == 1 or model == "mol" and normalize else (len(model) > 1 or j == 3,)):
                out.append(Job(descent, dict(kind=kind, n=2, model=model, normalize=normalize, sph=sph, target=target, zero=zero), concrete=6))
    if T:
        for model in ("s", "p", "ss", "sp"):
            out.append(Job(descent, dict(kind="qpos", n=3, model=model, normalize=False, sph=True, target=True, zero=False), concrete=6))
    return out
