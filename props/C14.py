"""C14: one fixed-point step."""
from vf.engine import Job
from props.common import MOLECULES, basis_at, make_grid, make_model, overwrite, r2_at, volume_weights, integral

FUNCTIONS = ["fit.KLDivergenceFPI.__init__", "fit.KLDivergenceFPI._update_params", "fit.KLDivergenceFPI.run", "fit.KLDivergenceFPI.lagrange_multiplier",
             "fit._BaseFit.integrate", "fit._BaseFit.goodness_of_fit", "measure.KLDivergence.evaluate", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"grid": "2 points (3 in thorough), and 6 for one function: any quadrature, radial trapezoid, uniform, cubic", "model": "s, p, sp, around the origin or any centre, ssspp, molecular with one to four centres, normalised or not",
          "modes": "coefficients, exponents, both", "mask": "any mask value, any subset of masked points"}
ASSUMPTIONS = ["density non-negative with non-zero integral; positive coefficients and exponents; non-zero target", "second moments A2 are not zero (otherwise the exponent update is undefined)",
               "non-negativity of the new coefficients: non-negative quadrature weights and positive target"]


def layout(model):
    """(centre, type) of every basis function in order."""
    if model in MOLECULES:
        return [(k, t) for k, (a, b) in enumerate(MOLECULES[model]) for t in "s" * a + "p" * b]
    return [(0, k) for k in model.rstrip("@")]


def setup(env, kind, n, model, normalize, sph, target, f, mask=None):
    F, M = env.mod("fit"), env.mod("model")
    grid, w = make_grid(env, kind, n)
    pts = grid.points
    lay = layout(model)
    cols = 1 if pts.ndim == 1 else pts.shape[1]
    if model.startswith("mol"):
        nc = lay[-1][0] + 1
        coords = env.reals("m", (nc, cols))
        basis = [[sum(1 for c, t in lay if c == k and t == ty) for ty in "sp"] for k in range(nc)]
        mod = M.MolecularGaussianDensity(pts, coords, env.np.array(basis), normalize=normalize)
        cen = [[coords[c, k] for k in range(cols)] for c, t in lay]
    else:
        # "@": around any centre
        at = env.reals("m", cols) if model.endswith("@") else None
        mod = M.AtomicGaussianDensity(pts, center=at, num_s=model.count("s"), num_p=model.count("p"), normalize=normalize)
        cen = [[0] * cols if at is None else [at[k] for k in range(cols)] for _ in lay]
    vw = volume_weights(env, grid, w, sph)
    tot = integral(env, vw, f)
    tgt = (env.real("N", sample=(0.5, 3)) if target is True else target) if target is not False else None
    env.assume(tot != 0)
    if target is not False:
        env.assume(tgt != 0)
    kw = {} if mask is None else {"mask_value": mask}
    fit = F.KLDivergenceFPI(grid, f, mod, integral_dens=tgt, spherical=sph, **kw)
    r2 = [[r2_at(env, pts, i, cen[k]) for i in range(n)] for k in range(len(lay))]
    return fit, mod, lay, r2, vw, tot, (tgt if target is not False else tot)


def step(env, kind, n, model, mode, normalize=True, sph=False, target=False, masked=False, disp=False):
    f = env.reals("f", n, lo=0)
    mask = env.real("mask", lo=0, sample=(0, 0.2)) if masked else None
    fit, mod, lay, r2, vw, tot, tgt = setup(env, kind, n, model, normalize, sph, target, f, mask)
    nb = len(lay)
    env.eq(fit.lagrange_multiplier, tot / tgt, "multiplier")
    c, e = env.posreals("c", nb), env.posreals("e", nb)
    b = [[basis_at(env, r2[k][i], e[k], lay[k][1], normalize) for i in range(n)] for k in range(nb)]
    g = [env.sum(c[k] * b[k][i] for k in range(nb)) for i in range(n)]
    ratio = []
    for i in range(n):
        if masked:
            ratio.append(1 if env.holds(g[i] <= mask) else f[i] / g[i])
        else:
            env.assume(g[i] > 0)
            ratio.append(f[i] / g[i])
    a1 = [integral(env, vw, [ratio[i] * b[k][i] for i in range(n)]) for k in range(nb)]
    a2 = [integral(env, vw, [ratio[i] * b[k][i] * r2[k][i] for i in range(n)]) for k in range(nb)]
    oc, oe = mode in ("both", "coeffs"), mode in ("both", "exps")
    if oe:
        for k in range(nb):
            env.assume(a2[k] != 0)
    # the goodness of fit of the new parameters is computed too; this harness is about the update
    if hasattr(fit, "goodness_of_fit"):
        fit.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
    env.hook("print", lambda *a, **k: None)
    sc, se, sf = env.snapshot(c), env.snapshot(e), env.snapshot(f)
    r = fit.run(c, e, opt_coeffs=oc, opt_expons=oe, maxiter=1, c_threshold=-1., e_threshold=-1., disp=disp)
    env.check(r["coeffs"].shape == (nb,) and r["exps"].shape == (nb,), "parameter shapes")
    for k in range(nb):
        env.eq(r["coeffs"][k], c[k] * a1[k] * tgt / tot if oc else c[k], f"coefficient {k}")
        env.eq(r["exps"][k], env.frac(3 if lay[k][1] == "s" else 5, 2) * a1[k] / a2[k] if oe else e[k], f"exponent {k}")
    env.unchanged(c, sc, "initial coefficients unchanged")
    env.unchanged(e, se, "initial exponents unchanged")
    env.unchanged(f, sf, "density unchanged")


def again(env, kind, model, modes):
    """one fit object run several times on the caller's arrays, overwritten in between: each run starts from the parameters given."""
    f = env.posreals("f", 2)
    fit, mod, lay, r2, vw, tot, tgt = setup(env, kind, 2, model, False, False, True, f)
    nb = len(lay)
    c, e = env.posreals("c", nb), env.posreals("e", nb)
    fit.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
    seen = []
    for t, mode in enumerate(modes):
        if t:
            overwrite(env, c, f"c{t}", lo=0, lo_strict=True)
            overwrite(env, e, f"e{t}", lo=0, lo_strict=True)
        b = [[basis_at(env, r2[k][i], e[k], lay[k][1], False) for i in range(2)] for k in range(nb)]
        g = [env.sum(c[k] * b[k][i] for k in range(nb)) for i in range(2)]
        for i in range(2):
            env.assume(g[i] > 0)
        a1 = [integral(env, vw, [f[i] / g[i] * b[k][i] for i in range(2)]) for k in range(nb)]
        a2 = [integral(env, vw, [f[i] / g[i] * b[k][i] * r2[k][i] for i in range(2)]) for k in range(nb)]
        oc, oe = mode in ("both", "coeffs"), mode in ("both", "exps")
        if oe:
            for k in range(nb):
                env.assume(a2[k] != 0)
        want_c = [c[k] * a1[k] * tgt / tot if oc else c[k] for k in range(nb)]
        want_e = [env.frac(3 if lay[k][1] == "s" else 5, 2) * a1[k] / a2[k] if oe else e[k] for k in range(nb)]
        r = fit.run(c, e, opt_coeffs=oc, opt_expons=oe, maxiter=1, c_threshold=-1., e_threshold=-1.)
        seen.append((dict(coeffs=list(r["coeffs"]), exps=list(r["exps"])), want_c, want_e))
    for t, (r, want_c, want_e) in enumerate(seen):
        for k in range(nb):
            env.eq(r["coeffs"][k], want_c[k], f"coefficient {k} of run {t}")
            env.eq(r["exps"][k], want_e[k], f"exponent {k} of run {t}")


def conserved(env, kind, n, model, normalize, sph, target):
    """coefficients may be zero; quadrature weights non-negative."""
    f = env.reals("f", n, lo=0)
    fit, mod, lay, r2, vw, tot, tgt = setup(env, kind, n, model, normalize, sph, target, f)
    nb = len(lay)
    env.assume(tot > 0)
    env.assume(tgt > 0)
    c, e = env.reals("c", nb, lo=0), env.posreals("e", nb)
    b = [[basis_at(env, r2[k][i], e[k], lay[k][1], normalize) for i in range(n)] for k in range(nb)]
    for i in range(n):
        env.assume(env.sum(c[k] * b[k][i] for k in range(nb)) > 0)
    fit.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
    r = fit.run(c, e, opt_coeffs=True, opt_expons=False, maxiter=1, c_threshold=-1., e_threshold=-1.)
    for k in range(nb):
        env.check(r["coeffs"][k] >= 0, f"coefficient {k} stays non-negative")
        env.eq(r["exps"][k], e[k], "fixed exponents")
    env.eq(env.sum(r["coeffs"][k] for k in range(nb)), tgt, "new coefficients sum to the target")


def nothing(env):
    f = env.posreals("f", 2)
    fit, mod, lay, r2, vw, tot, tgt = setup(env, "quad", 2, "s", True, False, False, f)
    env.check(env.raises(ValueError, fit.run, env.posreals("c", 1), env.posreals("e", 1), opt_coeffs=False, opt_expons=False), "refused when nothing is optimised")


def jobs(tier):
    T = tier == "thorough"
    out = []
    shapes = [("quad", "sp", True), ("quad3", "molsp", False), ("quad3", "mol1", False), ("quad3", "molps", False), ("radial", "ssp", True), ("uniform", "p", True), ("cubic", "mol", False), ("quad3", "sp", False), ("quad", "mol1", True)]
    for j, (kind, model, sph) in enumerate(shapes):
        for k, mode in enumerate(("both", "coeffs", "exps")):
            for norm in ((True, False) if T else ((j + k) % 3 != 0,)):
                for target in ((True, False) if T else ((j + k) % 2 == 0,)):
                    out.append(Job(step, dict(kind=kind, n=3 if T else 2, model=model, mode=mode, normalize=norm, sph=sph, target=target, masked=kind == "uniform", disp=(j + k) % 2 == 1), concrete=4))
    for mode in ("both", "coeffs", "exps"):
        out.append(Job(step, dict(kind="quad", n=3 if T else 2, model="s", mode=mode, masked=True, target=True), concrete=10))
        out.append(Job(step, dict(kind="quad", n=2, model="sp", mode=mode, masked=True, target=True), concrete=10))
        for kind, n, model in (("quad3", 2, "sp@"), ("quad3", 2, "mol3"), ("quad3", 1, "mol4"), ("quad", 2, "ssspp"), ("quad", 6, "s")):
            out.append(Job(step, dict(kind=kind, n=n, model=model, mode=mode, normalize=mode == "both", target=mode == "exps"), concrete=4))
    for kind, model, sph in (("qpos", "sp", True), ("qpos", "ss", False), ("radial", "ss", True), ("cubic", "s", False)):
        for norm in (True, False):
            for target in (True, False):
                out.append(Job(conserved, dict(kind=kind, n=2, model=model, normalize=norm, sph=sph, target=target), concrete=6))
    for kind, model in (("quad", "s"), ("quad", "sp"), ("quad3", "molps")):
        out.append(Job(again, dict(kind=kind, model=model, modes=("coeffs", "coeffs") if model == "sp" else ("coeffs", "exps", "both")), concrete=4))
    out.append(Job(nothing, {}, concrete=2))
    return out
