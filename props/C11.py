"""C11: fit integration, default target and goodness of fit."""
from vf.engine import Job
from props.common import make_grid, make_model, overwrite, volume_weights, integral

FUNCTIONS = ["fit._BaseFit.__init__", "fit._BaseFit.integrate", "fit._BaseFit.goodness_of_fit", "fit.KLDivergenceFPI.__init__", "fit.ScipyFit.__init__",
             "measure.KLDivergence.evaluate", "measure.SquaredDifference.evaluate", "grid.*.integrate", "model.*.evaluate"]
BOUNDS = {"grid": "2-3 points, and 5 (thorough 8) for one centre: any quadrature, radial trapezoid, uniform, cubic", "model": "s, sp, molecular with two and three centres",
          "mask value": "any non-negative value; sign and mask patterns of the model explored"}
ASSUMPTIONS = ["density is non-negative"]


def fitter(env, cls, grid, f, model, target, spherical, mask):
    F = env.mod("fit")
    kw = dict(integral_dens=target, spherical=spherical)
    if mask is not None:
        kw["mask_value"] = mask
    if cls == "fpi":
        return F.KLDivergenceFPI(grid, f, model, **kw)
    meas = env.mod("measure")
    if cls == "scipy":
        return F.ScipyFit(grid, f, model, measure=meas.SquaredDifference(), **kw)
    # the measure has settings of its own; the reported divergence is that of the fit's mask value
    own = env.real("own", lo=0, sample=(0.2, 0.6))
    ms = meas.KLDivergence(mask_value=own, negative_val=env.real("pen", lo=1, sample=(1, 9))) if cls == "scipykl" else meas.TsallisDivergence(alpha=2, mask_value=own)
    return F.ScipyFit(grid, f, model, measure=ms, **kw)


def gof(env, cls, kind, n, model, spherical, target, mask, signed=False, normalize=True):
    grid, w = make_grid(env, kind, n)
    mod, nb = make_model(env, grid, model, normalize)
    f = env.reals("f", n, lo=0, lo_strict=True)
    tgt = env.pos("N") if target else None
    mv = env.real("mask", lo=0, sample=(0, 0.2)) if mask else None
    vw = volume_weights(env, grid, w, spherical)
    if cls == "fpi" and not target:
        env.assume(env.not_(integral(env, vw, f) == 0))
    elif cls == "fpi":
        env.assume(env.not_(integral(env, vw, f) == 0))
    sf = env.snapshot(f)
    fit = fitter(env, cls, grid, f, mod, tgt, spherical, mv)
    env.eq(fit.integral_dens, tgt if target else integral(env, vw, f), "target")
    if cls == "fpi":
        env.eq(fit.lagrange_multiplier, integral(env, vw, f) / (tgt if target else integral(env, vw, f)), "multiplier")
    h = env.reals("h", n)
    env.eq(fit.integrate(h), integral(env, vw, h), "integral")
    c = env.reals("c", nb) if signed else env.posreals("c", nb)
    e = env.posreals("e", nb)
    sc, se = env.snapshot(c), env.snapshot(e)
    res = fit.goodness_of_fit(c, e)
    g = mod.evaluate(c, e)
    env.check(len(res) == 5, "five numbers")
    d = [env.abs(f[i] - g[i]) for i in range(n)]
    env.eq(res[0], integral(env, vw, g), "integral of the model")
    env.eq(res[1], integral(env, vw, d), "integral of the absolute difference")
    env.eq(res[2], env.max(d), "maximum absolute difference")
    env.eq(res[3], integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]), "integral of the squared difference")
    default = env.frac(0) if cls == "fpi" else env.frac(1, 10 ** 18)
    kl = env.mod("measure").KLDivergence(mask_value=mv if mask else default).evaluate(f, g)
    env.eq(res[4], integral(env, vw, kl), "integral of the Kullback-Leibler integrand")
    for i in range(n):
        if not signed and not mask:
            env.eq(kl[i], env.ite(g[i] <= default, 0, f[i] * env.log(f[i] / g[i])) if cls != "fpi" else f[i] * env.log(f[i] / g[i]), f"Kullback-Leibler integrand {i}")
    again = fit.goodness_of_fit(c, e)
    for i in range(5):
        env.eq(again[i], res[i], f"evaluated again {i}")
    env.unchanged(f, sf, "density unchanged")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")
    env.eq(fit.integrate(h), integral(env, vw, h), "integral again")
    env.eq(fit.density, f, "density reported")
    env.check(fit.spherical == spherical and fit.model is mod and fit.grid is grid, "parts reported")


def rewritten(env, cls, kind, n, model, spherical):
    """the caller overwrites its parameter arrays and integrand between calls."""
    grid, w = make_grid(env, kind, n)
    mod, nb = make_model(env, grid, model, False)
    f = env.posreals("f", n)
    vw = volume_weights(env, grid, w, spherical)
    env.assume(env.not_(integral(env, vw, f) == 0))
    fit = fitter(env, cls, grid, f, mod, None, spherical, None)
    c, e, h = env.posreals("c", nb), env.posreals("e", nb), env.reals("h", n)
    default = env.frac(0) if cls == "fpi" else env.frac(1, 10 ** 18)
    seen = []
    for t in range(3):
        if t:
            overwrite(env, h, f"h{t}")
            overwrite(env, e if t == 1 else c, f"p{t}", lo=0, lo_strict=True)
        env.eq(fit.integrate(h), integral(env, vw, h), f"integral after {t} overwrites")
        res = fit.goodness_of_fit(c, e)
        g = mod.evaluate(env.vec(*list(c)), env.vec(*list(e)))
        d = [env.abs(f[i] - g[i]) for i in range(n)]
        kl = env.mod("measure").KLDivergence(mask_value=default).evaluate(f, g)
        want = [integral(env, vw, g), integral(env, vw, d), env.max(d), integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]), integral(env, vw, kl)]
        seen.append((res, want))
    for t, (res, want) in enumerate(seen):
        for k in range(5):
            env.eq(res[k], want[k], f"measure {k} after {t} overwrites")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for cls in ("fpi", "scipy"):
        for kind, sph in (("quad", False), ("quad", True), ("radial", True), ("uniform", True), ("radial", False), ("cubic", False), ("quad3", False)):
            for model in (("s", "sp", "mol") if T else ("sp",) if kind != "quad3" else ("mol",)):
                for target in ((False, True) if T or kind == "quad" else (cls == "scipy",)):
                    out.append(Job(gof, dict(cls=cls, kind=kind, n=2, model=model, spherical=sph, target=target, mask=False), concrete=6))
        for signed in (False, True):
            out.append(Job(gof, dict(cls=cls, kind="quad", n=2, model="s", spherical=False, target=True, mask=True, signed=signed, normalize=False), concrete=10))
        for kind, model, sph in (("quad", "s", False), ("radial", "sp", True)):
            out.append(Job(rewritten, dict(cls=cls, kind=kind, n=2, model=model, spherical=sph), concrete=4))
        out.append(Job(gof, dict(cls=cls, kind="quad", n=3, model="s", spherical=True, target=True, mask=False), concrete=6))
    for cls in ("fpi", "scipy"):
        out.append(Job(gof, dict(cls=cls, kind="quad", n=8 if T else 5, model="sp", spherical=True, target=True, mask=False), concrete=4))
        out.append(Job(gof, dict(cls=cls, kind="quad3", n=1, model="mol3", spherical=False, target=False, mask=False), concrete=4))
        out.append(Job(gof, dict(cls=cls, kind="radial", n=8 if T else 5, model="s", spherical=True, target=False, mask=False), concrete=4))
    for cls in ("scipykl", "scipyts"):
        for signed in (False, True):
            out.append(Job(gof, dict(cls=cls, kind="quad", n=2, model="s", spherical=False, target=True, mask=True, signed=signed, normalize=False), concrete=20))
        out.append(Job(gof, dict(cls=cls, kind="quad", n=2, model="s", spherical=True, target=False, mask=False, normalize=False), concrete=6))
    return out
