"""C12: objective, gradient and constraint of ScipyFit."""
from vf.engine import Job
from props.common import make_grid, make_model, overwrite, volume_weights, integral

FUNCTIONS = ["fit.ScipyFit.__init__", "fit.ScipyFit.func", "fit.ScipyFit.const_norm", "fit.ScipyFit.evaluate_model", "fit._BaseFit.integrate",
             "measure.*.evaluate", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"grid": "2 points (3 in thorough), and 40 (thorough 60) for one function: any quadrature, radial trapezoid, cubic", "model": "s, sp, three s and two p functions, molecular with two and three centres", "modes": "coefficients, exponents, both",
          "measures": "squared difference, Kullback-Leibler (unmasked, masked and negative model), Tsallis of any order above one"}
ASSUMPTIONS = ["exponents are positive", "gradient of the Kullback-Leibler and Tsallis objectives where no point is masked (the masked value is constant in the model by "
               "definition while its documented derivative is not)"]


def measure(env, name):
    M = env.mod("measure")
    if name == "ls":
        return M.SquaredDifference(), None
    if name == "kl":
        return M.KLDivergence(mask_value=0.), None
    a = env.real("alpha", lo=1, lo_strict=True, sample=(1.1, 3))
    env.assume(a - 1 > env.frac(1, 1000))
    return M.TsallisDivergence(alpha=a, mask_value=0.), a


def objective(env, meas, kind, n, model, mode, weights, spherical, method, target, normalize=True):
    F = env.mod("fit")
    grid, w = make_grid(env, kind, n)
    mod, nb = make_model(env, grid, model, normalize)
    f = env.posreals("f", n)
    ms, alpha = measure(env, meas)
    wt = env.reals("wt", n) if weights else None
    tgt = env.pos("N") if target else None
    vw = volume_weights(env, grid, w, spherical)
    fit = F.ScipyFit(grid, f, mod, measure=ms, method=method, weights=wt, integral_dens=tgt, spherical=spherical)
    c = env.posreals("c", nb)
    e = env.posreals("e", nb)
    if mode == "both":
        x, args = list(c) + list(e), ()
    elif mode == "coeffs":
        x, args = list(c), ("fixed_expons", e)
    else:
        x, args = list(e), ("fixed_coeffs", c)
    sc, se, sf = env.snapshot(c), env.snapshot(e), env.snapshot(f)
    xv = env.vec(*x)
    sx = env.snapshot(xv)
    obj, dobj = fit.func(xv, *args)
    env.check(dobj.shape == (len(x),), "one derivative per optimised parameter")

    def documented(p):
        k = len(p)
        cc, ee = (p[:nb], p[nb:]) if mode == "both" else (p, list(e)) if mode == "coeffs" else (list(c), p)
        g = mod.evaluate(env.vec(*cc), env.vec(*ee))
        if meas == "ls":
            v = [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]
        elif meas == "kl":
            v = [f[i] * env.log(f[i] / g[i]) for i in range(n)]
        else:
            v = [f[i] * (env.pow(f[i] / g[i], alpha - 1) - 1) / (alpha - 1) for i in range(n)]
        return env.vec(integral(env, vw, [v[i] * (wt[i] if weights else 1) for i in range(n)]))
    val, ref = env.grad(documented, x)
    env.eq(obj, val[0], "objective")
    for k in range(len(x)):
        env.eq(dobj[k], ref[0, k], f"gradient component {k}", tol=2e-5)
    cons = fit.const_norm(xv, *args)
    g = mod.evaluate(c, e)
    env.eq(cons, (tgt if target else integral(env, vw, f)) - integral(env, vw, g), "constraint")
    o2, d2 = fit.func(xv, *args)
    env.eq(o2, obj, "objective again")
    env.eq(d2, dobj, "gradient again")
    env.unchanged(xv, sx, "parameters unchanged")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")
    env.unchanged(f, sf, "density unchanged")


def rewritten(env, meas, mode, kind, model, spherical):
    """an optimiser keeps one parameter array and overwrites it; the fixed array is the caller's and may change between calls too."""
    F = env.mod("fit")
    grid, w = make_grid(env, kind, 2)
    mod, nb = make_model(env, grid, model, False)
    f = env.posreals("f", 2)
    ms, alpha = measure(env, meas)
    vw = volume_weights(env, grid, w, spherical)
    wt = env.reals("wt", 2)
    fit = F.ScipyFit(grid, f, mod, measure=ms, weights=wt, spherical=spherical)
    x = env.posreals("q", nb * (2 if mode == "both" else 1))
    fixed = env.posreals("u", nb)
    args = () if mode == "both" else ("fixed_expons" if mode == "coeffs" else "fixed_coeffs", fixed)
    total = integral(env, vw, f)
    seen = []
    for t in range(3):
        if t == 1:
            overwrite(env, x, "q1", lo=0, lo_strict=True)
        if t == 2 and mode == "both":
            overwrite(env, x, "q2", lo=0, lo_strict=True)
        elif t == 2:
            overwrite(env, fixed, "u1", lo=0, lo_strict=True)
        p, q = list(x), list(fixed)
        c, e = (p[:nb], p[nb:]) if mode == "both" else (p, q) if mode == "coeffs" else (q, p)
        obj, dobj = fit.func(x, *args)
        cons = fit.const_norm(x, *args)
        g, dg = mod.evaluate(env.vec(*c), env.vec(*e), True)
        v, dv = ms.evaluate(f, g, True)
        off = nb if mode == "exps" else 0
        seen.append((obj, dobj, cons, integral(env, vw, [wt[i] * v[i] for i in range(2)]),
                     [integral(env, vw, [wt[i] * dv[i] * dg[i, off + k] for i in range(2)]) for k in range(len(p))], total - integral(env, vw, g)))
    for t, (obj, dobj, cons, ro, rd, rc) in enumerate(seen):
        env.eq(obj, ro, f"objective after {t} overwrites")
        env.eq(dobj, env.vec(*rd), f"gradient after {t} overwrites")
        env.eq(cons, rc, f"constraint after {t} overwrites")


def masked(env, meas, n, signed):
    """any sign and mask pattern: the objective is the integral of weights times the measure."""
    F, M = env.mod("fit"), env.mod("measure")
    grid, w = make_grid(env, "quad", n)
    mod, nb = make_model(env, grid, "s", False)
    f = env.reals("f", n, lo=0)
    mask = env.real("mask", lo=0, sample=(0, 0.3))
    pen = env.real("pen", lo=1, sample=(1, 1e4))
    ms = M.KLDivergence(mask_value=mask, negative_val=pen) if meas == "kl" else M.TsallisDivergence(alpha=env.frac(2), mask_value=mask)
    wt = env.reals("wt", n)
    fit = F.ScipyFit(grid, f, mod, measure=ms, weights=wt)
    c = env.reals("c", nb) if signed else env.posreals("c", nb)
    e = env.posreals("e", nb)
    x = env.vec(*(list(c) + list(e)))
    obj, dobj = fit.func(x)
    g, dg = mod.evaluate(c, e, True)
    k, dk = ms.evaluate(f, g, True)
    env.eq(obj, env.sum(w[i] * wt[i] * k[i] for i in range(n)), "objective")
    for j in range(2 * nb):
        env.eq(dobj[j], env.sum(w[i] * wt[i] * dk[i] * dg[i, j] for i in range(n)), f"gradient component {j}")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for meas in ("ls", "kl", "ts"):
        for mode in ("both", "coeffs", "exps"):
            for kind, sph, model in (("quad", True, "sp"), ("quad3", False, "molsp" if meas == "ls" else "mol"), ("radial", True, "s"), ("cubic", False, "s")):
                for weights in ((False, True) if T else (kind in ("quad", "cubic"),)):
                    for norm in ((True, False) if T else (kind != "radial",)):
                        out.append(Job(objective, dict(meas=meas, kind=kind, n=3 if T and meas == "ls" else 2, model=model, mode=mode, weights=weights, spherical=sph,
                                                       method="trust-constr" if kind == "radial" else "SLSQP", target=kind == "quad", normalize=norm), concrete=4))
    for meas in ("ls", "kl", "ts"):
        for mode in ("both", "coeffs", "exps"):
            out.append(Job(objective, dict(meas=meas, kind="quad", n=1, model="mol3" if meas == "ls" or T else "mol", mode=mode, weights=True, spherical=False, method="SLSQP", target=True, normalize=True), concrete=4))
            out.append(Job(objective, dict(meas=meas, kind="quad", n=60 if T else 40, model="s", mode=mode, weights=True, spherical=True, method="SLSQP", target=True, normalize=False), concrete=4))
            out.append(Job(objective, dict(meas=meas, kind="quad", n=1, model="ssspp", mode=mode, weights=True, spherical=True, method="SLSQP", target=True, normalize=True), concrete=4))
    for meas in ("ls", "kl"):
        for j, mode in enumerate(("both", "coeffs", "exps")):
            for kind, sph, model in (("quad", True, "sp"), ("quad3", False, "mol")):
                out.append(Job(rewritten, dict(meas=meas, mode=mode, kind=kind, model=model, spherical=sph), concrete=4))
    for meas in ("kl", "ts"):
        for signed in (False, True):
            out.append(Job(masked, dict(meas=meas, n=2, signed=signed), concrete=12))
    return out
