"""C27: fits refuse inconsistent or negative data, and accept consistent data."""
from vf.engine import Job
from props.common import QuadGrid, integral, volume_weights

FUNCTIONS = ["fit._BaseFit.__init__", "fit.KLDivergenceFPI.__init__", "fit.KLDivergenceFPI.run (checks)", "fit.ScipyFit.__init__", "fit.ScipyFit.run (modes)"]
BOUNDS = {"points": "2 to 4 (6) points, one-dimensional, in three dimensions, and one column", "values": "every density, point, weight, target and guess any real",
          "shapes": "densities of every length 0 to n+2, guesses of every shape up to two dimensions with 0 to m+2 entries", "method": "every case of the two names and 9 others"}
ASSUMPTIONS = ["the grid's integrate is a linear functional with any weights"]


def grid_of(env, shape, name="x"):
    pts = env.reals(name, shape)
    return QuadGrid(pts, env.reals("w", shape[0]), env)


def model_of(env, grid, basis=(2, 1)):
    M = env.mod("model")
    if grid.points.ndim == 1:
        return M.AtomicGaussianDensity(grid.points, num_s=basis[0], num_p=basis[1], normalize=False)
    return M.MolecularGaussianDensity(grid.points, env.np.zeros((1, grid.points.shape[1])), env.np.array([list(basis)]), normalize=False)


def maker(env, which, **kw):
    F, ms = env.mod("fit"), env.mod("measure")
    if which == "fpi":
        return lambda g, f, m, **k: F.KLDivergenceFPI(g, f, m, **{**kw, **k})
    if which == "ls":
        return lambda g, f, m, **k: F.ScipyFit(g, f, m, **{"measure": ms.SquaredDifference(), **kw, **k})
    if which == "kl":
        return lambda g, f, m, **k: F.ScipyFit(g, f, m, **{"measure": ms.KLDivergence(), **kw, **k})
    if which == "default":
        return lambda g, f, m, **k: F.ScipyFit(g, f, m, **{**kw, **k})
    raise ValueError(which)


def negative(env, which, shape, spherical):
    """accepted exactly when no entry is negative (and the multiplier is a non-zero number)."""
    g = grid_of(env, shape)
    f = env.reals("f", shape[0])
    model = model_of(env, g)
    given = env.flag("given")
    target = env.pos("N")
    kw = dict(spherical=spherical, integral_dens=target if given else None)
    vw = volume_weights(env, g, g.w, spherical)
    total = integral(env, vw, f)
    if which == "fpi" and not given:
        env.assume(total != 0)      # zero over zero is in the harness `zero`
    fit, exc = env.attempt(maker(env, which, **kw), g, f, model)
    neg = env.or_(*[f[i] < 0 for i in range(shape[0])])
    if env.holds(neg):
        env.check(isinstance(exc, ValueError), "a density with a negative entry is refused")
        return
    if which == "fpi" and env.holds(total == 0):
        env.check(isinstance(exc, RuntimeError), "a zero multiplier is refused")
        return
    env.check(exc is None, "consistent data is accepted")
    if exc is None:
        env.check(fit.grid is g and fit.model is model, "grid and model are kept")
        env.eq(fit.density, f, "density is kept")
        env.eq(fit.integral_dens, target if given else total, "integral of the density")
        env.check(bool(fit.spherical) == spherical, "spherical is kept")


def zero(env, shape, spherical, balanced):
    """fixed-point fit: a density that integrates to zero."""
    g = grid_of(env, shape)
    n = shape[0]
    f = env.np.zeros(n)
    if balanced and not spherical:
        f = env.posreals("f", n)
        g.w = env.vec(*[g.w[i] for i in range(n - 1)], -env.sum(g.w[i] * f[i] for i in range(n - 1)) / f[n - 1])
    fit, exc = env.attempt(maker(env, "fpi", spherical=spherical, integral_dens=env.pos("N")), g, f, model_of(env, g))
    if env.symbolic or not balanced:
        env.check(isinstance(exc, RuntimeError), "a zero multiplier is refused")
    if not balanced:
        fit, exc = env.attempt(maker(env, "fpi", spherical=spherical), g, f, model_of(env, g))
        env.check(isinstance(exc, RuntimeError), "a multiplier that is no number is refused")


def dimension(env, which, shape):
    """spherical integration only on one-dimensional points."""
    g = grid_of(env, shape)
    f = env.posreals("f", shape[0])
    env.assume(env.sum(g.w[i] * f[i] for i in range(shape[0])) > 0)
    model = model_of(env, g, (1, 1))
    sph = env.flag("spherical")
    fit, exc = env.attempt(maker(env, which), g, f, model, spherical=sph)
    if sph:
        env.check(isinstance(exc, ValueError), "spherical integration is refused")
    else:
        env.check(exc is None, "consistent data is accepted")


class Bag:
    pass


def lacking(env, which, n):
    """grids lacking points or integration."""
    full = grid_of(env, (n,))
    model = model_of(env, full)
    f = env.posreals("f", n)
    make = maker(env, which)
    env.assume(env.sum(full.w[i] * f[i] for i in range(n)) > 0)
    for points in (False, True):
        for integrate in ("none", "number", "text", "function"):
            g = Bag()
            if points:
                g.points = full.points
            if integrate == "number":
                g.integrate = 1.0
            elif integrate == "text":
                g.integrate = "integrate"
            elif integrate == "function":
                g.integrate = full.integrate
            fit, exc = env.attempt(make, g, f, model)
            if points and integrate == "function":
                env.check(exc is None, "consistent data is accepted")
            else:
                env.check(isinstance(exc, AttributeError), "a grid without points or integration is refused")


def positions(env, which, shape):
    """ScipyFit: the grid's points are the model's, to 1e-12."""
    g = grid_of(env, shape)
    y = env.reals("x", shape)
    d = env.reals("d", shape, lo=-1, hi=1, sample=(-1e-12, 1e-12)) if env.flag("close") else env.reals("D", shape, sample=(-2, 2))
    if env.symbolic or len(shape) == 1:
        move = [(i,) for i in range(shape[0])] if len(shape) == 1 else [(i, k) for i in range(shape[0]) for k in range(shape[1])]
    else:
        move = [(i, k) for i in range(shape[0]) for k in range(shape[1])]
    one = env.index("where", len(move) + 1)     # one coordinate, or all of them
    moved = [p for k, p in enumerate(move) if one in (k, len(move))]
    other = Bag()
    q = env.np.array(g.points)
    q = q.copy()
    for p in moved:
        q[p] = q[p] + d[p]
    other.points = q
    model = model_of(env, other)
    f = env.posreals("f", shape[0])
    fit, exc = env.attempt(maker(env, which), g, f, model)
    gaps = [env.abs(q[p] - g.points[p]) for p in moved]
    limit = env.frac(1, 10**12) if env.symbolic else 1e-12
    if not env.symbolic:
        # the subtraction rounds
        if any(abs(x - limit) < 1e-3 * limit for x in gaps):
            return
    if env.holds(env.or_(*[x > limit for x in gaps])):
        env.check(isinstance(exc, ValueError), "points that differ from the model's are refused")
    else:
        env.check(exc is None, "consistent data is accepted")


def lengths(env, which, shape, extra):
    """ScipyFit: one density value per point."""
    n = shape[0]
    g = grid_of(env, shape)
    model = model_of(env, g)
    k = env.index("length", n + extra + 1)
    f = env.posreals("f", k) if k else env.np.zeros(0)
    fit, exc = env.attempt(maker(env, which), g, f, model)
    if k != n:
        env.check(isinstance(exc, ValueError), "a density of another length is refused")
    else:
        env.check(exc is None, "consistent data is accepted")


METHODS = ["slsqp", "SLSQP", "Slsqp", "trust-constr", "Trust-Constr", "TRUST-CONSTR"]
OTHERS = ["", "SLSQP ", "slsq", "trust", "trust_constr", "L-BFGS-B", "COBYLA", "Nelder-Mead", "slsqp,trust-constr"]


def choices(env, n):
    """ScipyFit: method and measure."""
    F, ms = env.mod("fit"), env.mod("measure")
    g = grid_of(env, (n,))
    model = model_of(env, g)
    f = env.posreals("f", n)
    for name in METHODS:
        fit, exc = env.attempt(F.ScipyFit, g, f, model, measure=ms.SquaredDifference(), method=name)
        env.check(exc is None, "either method is accepted in any case")
        if exc is None:
            env.check(fit.method == name.lower(), "method is kept")
    for name in OTHERS:
        env.check(env.raises(ValueError, F.ScipyFit, g, f, model, ms.SquaredDifference(), name), "an unknown method is refused")

    class Own(ms.Measure):
        def evaluate(self, density, model, deriv=False):
            return density

    class Alike:
        def evaluate(self, density, model, deriv=False):
            return density

    for good in (ms.SquaredDifference(), ms.KLDivergence(), ms.KLDivergence(mask_value=0.), ms.TsallisDivergence(), Own()):
        fit, exc = env.attempt(F.ScipyFit, g, f, model, measure=good)
        env.check(exc is None, "any measure is accepted")
        if exc is None:
            env.check(fit.measure is good, "measure is kept")
    for bad in (None, "kl", 1, ms.KLDivergence, ms.SquaredDifference, Alike(), ms.KLDivergence().evaluate, [ms.KLDivergence()]):
        env.check(env.raises(TypeError, F.ScipyFit, g, f, model, bad), "what is no measure is refused")
    fit, exc = env.attempt(F.ScipyFit, g, f, model)
    env.check(exc is None, "default measure and method are accepted")
    if exc is None:
        env.check(isinstance(fit.measure, ms.KLDivergence) and fit.method == "slsqp", "default measure and method")


def guesses(env, basis, extra):
    """fixed-point run: guesses of every shape."""
    F = env.mod("fit")
    g = QuadGrid(env.posreals("x", 2), env.posreals("w", 2), env)
    f = env.posreals("f", 2)
    fit = F.KLDivergenceFPI(g, f, model_of(env, g, basis))
    m = sum(basis)
    shapes = [(k,) for k in range(m + extra + 1)] + [(m, 1), (1, m), (m, m), (1, 1)] + [()]
    good = env.posreals("c", m), env.posreals("e", m)

    def of(name, shape):
        if shape == ():
            return env.np.array(env.pos(name + "0"))
        if 0 in shape:
            return env.np.zeros(shape)
        return env.posreals(name, shape)
    for which in (0, 1, 2):         # wrong coefficients, exponents, both
        for shape in shapes:
            bad = of(f"g{which}_{len(shape)}_{'_'.join(map(str, shape))}_", shape)
            c, e = (bad if which in (0, 2) else good[0]), (bad if which in (1, 2) else good[1])
            right = shape == (m,)
            r, exc = env.attempt(fit.run, c, e, maxiter=int(right and which == 0 and m == 1))
            if right:
                env.check(exc is None, "guesses of the model's size are accepted")
            else:
                env.check(isinstance(exc, ValueError), "a guess of another shape is refused")
    for bad in ([1.] * m, (1.,) * m, None, 1.0, "1"):
        env.check(env.raises(TypeError, fit.run, bad, good[1]), "a guess that is no array is refused")
        env.check(env.raises(TypeError, fit.run, good[0], bad), "a guess that is no array is refused")
    env.check(env.raises(ValueError, fit.run, good[0], good[1], False, False), "nothing to optimise is refused")


def nothing(env, which):
    g = QuadGrid(env.posreals("x", 2), env.posreals("w", 2), env)
    fit = maker(env, which)(g, env.posreals("f", 2), model_of(env, g, (1, 0)))
    env.hook("minimize", lambda *a, **k: env.check(False, "the optimiser is not called"))
    for method in (True, False):
        env.check(env.raises(ValueError, fit.run, env.posreals("c", 1) if method else env.arr([1.0]), env.arr([1.0]), opt_coeffs=False, opt_expons=False), "nothing to optimise is refused")


def jobs(tier):
    T = tier == "thorough"
    out = []

    def add(f, **k):
        out.append(Job(f, k, concrete=12, max_paths=4000))

    for which in ("fpi", "ls", "kl", "default"):
        for shape, sph in [((2,), False), ((3,), True), ((4,), False), ((2, 3), False)] + ([((5,), True), ((6,), False), ((3, 3), False)] if T else []):
            add(negative, which=which, shape=shape, spherical=sph)
        if which == "fpi":
            for shape, sph, bal in [((2,), True, False), ((3,), False, False), ((3,), False, True), ((2, 3), False, True)]:
                add(zero, shape=shape, spherical=sph, balanced=bal)
        for shape in [(2, 3), (2, 1), (1, 3)] + ([(3, 3), (4, 2)] if T else []):
            add(dimension, which=which, shape=shape)
        add(lacking, which=which, n=2)
    for which in ("ls", "default"):
        for shape in [(2,), (4,), (1,), (2, 3)] + ([(6,), (3, 3), (3, 1)] if T else []):
            add(positions, which=which, shape=shape)
        for shape in [(2,), (3,), (2, 3), (1,)] + ([(5,), (4, 3)] if T else []):
            add(lengths, which=which, shape=shape, extra=2)
        add(nothing, which=which)
    add(choices, n=2)
    for basis in [(1, 0), (2, 0), (1, 1)] + ([(2, 1)] if T else []):
        add(guesses, basis=basis, extra=2)
    return out
