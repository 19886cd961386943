"""C34: integer arrays are read as the numbers they hold."""
from vf.engine import Job
from props import C24
from props.C13 import Res
from props.common import MOLECULES, QuadGrid

FUNCTIONS = ["model.AtomicGaussianDensity.*", "model.MolecularGaussianDensity.*", "measure.*.evaluate", "grid._BaseRadialGrid.integrate", "grid.CubicGrid.*", "grid.ClenshawRadialGrid.__init__",
             "fit._BaseFit.*", "fit.ScipyFit.*", "fit.KLDivergenceFPI.*", "greedy.get_next_choices", "greedy.get_two_next_choices", "greedy.pick_two_lose_one", "greedy.remove_redundancies",
             "greedy.GreedyLeastSquares.*", "greedy.GreedyKLFPI.*", "density.SlaterAtoms.*"]
BOUNDS = {"integers": "any integers (unbounded) in every entry; any of the arguments integer, the others any reals", "functions": "1 to 4 (6 in thorough)", "points": "1 to 4 (6)"}
ASSUMPTIONS = ["integers small enough that their products do not overflow; which arrays are integer ones follows numpy (copies, views, insertions, joins, sums, products and powers of integer arrays are; what is stored into one is cut down to an integer)", "what the results are is decided by the other properties; here both calls run the real code and have to agree"]


class Pick:
    """which arguments are integer arrays, and the two versions of each."""

    def __init__(self, env, which):
        self.env, self.which, self.a, self.b = env, which, {}, {}

    def __call__(self, name, shape, limits=(None, None), **opts):
        if name in self.which:
            self.a[name] = self.env.ints(name, shape, limits[0], sample=None if limits[0] is None else limits)
            self.b[name] = self.env.floats(self.a[name])
        else:
            if limits[0] is not None:
                opts.update(lo=min(limits[0], 0), lo_strict=limits[0] > 0)
            opts.setdefault("sample", (0.2, 2))
            self.a[name] = self.env.reals(name, shape, **opts)
            self.b[name] = self.a[name]


def compare(env, x, y, label):
    if isinstance(x, dict):
        env.check(set(x) == set(y), f"{label}: entries")
        for k in x:
            if k in y and k not in ("time", "message", "exit_information"):
                compare(env, x[k], y[k], f"{label} {k}")
    elif isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        env.check(len(x) == len(y), f"{label}: number of results")
        for k, (p, q) in enumerate(zip(x, y)):
            compare(env, p, q, f"{label} {k}")
    elif hasattr(x, "shape") or hasattr(y, "shape"):
        x, y = env.np.asarray(x), env.np.asarray(y)
        env.check(x.shape == y.shape, f"{label}: shape")
        if x.shape == y.shape:
            env.eq(env.vec(*x.ravel()), env.vec(*y.ravel()), label)
    else:
        env.eq(x, y, label)


def both(env, f, pick, label):
    """the call with integer arrays and with the equal real arrays, in this order."""
    snaps = {k: v.copy() for k, v in pick.a.items() if k in pick.which}
    x = f(**pick.a)
    for k, v in snaps.items():
        env.unchanged(pick.a[k], v, f"{k} unchanged")
    y = f(**pick.b)
    compare(env, x, y, label)


def measure(env, which, args, n):
    M = env.mod("measure")
    mask, pen = env.real("mask", lo=0, sample=(0, 1.5)), env.real("pen", sample=(5, 9))
    m = {"ls": lambda: M.SquaredDifference(), "kl": lambda: M.KLDivergence(mask_value=mask, negative_val=pen), "ts": lambda: M.TsallisDivergence(alpha=env.frac(2), mask_value=mask),
         "tsh": lambda: M.TsallisDivergence(alpha=env.frac(3, 2), mask_value=mask)}[which]()
    p = Pick(env, args)
    p("f", n, (1, 5) if which == "tsh" else (0, 4))
    p("g", n, (None, None) if which in ("kl", "ls") else (1, 5))
    both(env, lambda f, g: (m.evaluate(f, g), m.evaluate(f, g, deriv=True)), p, "measure")


def atomic(env, dim, ns, np_, normalize, args):
    A = env.mod("model").AtomicGaussianDensity
    n = ns + np_
    p = Pick(env, args)
    p("x", 2 if dim == 0 else (1, dim))
    p("z", max(dim, 1))
    p("c", n)
    p("e", n, (1, 4))

    def f(x, z, c, e):
        m = A(x, z, ns, np_, normalize)
        return m.radii, m.evaluate(c, e), m.evaluate(c, e, deriv=True)
    both(env, f, p, "model")


def molecular(env, model, dim, normalize, args):
    M = env.mod("model").MolecularGaussianDensity
    basis = MOLECULES[model]
    n = sum(a + b for a, b in basis)
    p = Pick(env, args)
    p("x", 1 if dim == 0 else (1, dim))
    p("z", (len(basis), max(dim, 1)))
    p("c", n)
    p("e", n, (1, 4))

    def f(x, z, c, e):
        m = M(x, z, env.np.array(basis), normalize=normalize)
        return m.radii, m.evaluate(c, e), m.evaluate(c, e, deriv=True)
    both(env, f, p, "molecule")


def candidates(env, which, n, args):
    G = env.mod("greedy")
    factor, fill = env.pos("factor"), env.real("fill")
    p = Pick(env, args)
    p("c", n)
    p("e", n, (1, 4))
    both(env, lambda c, e: list(getattr(G, which)(factor, c, e, fill)), p, which)


def redundant(env, n, args):
    G = env.mod("greedy")
    eps = env.real("eps", lo=0, lo_strict=True, sample=(0.3, 1.5))
    p = Pick(env, args)
    p("c", n)
    p("e", n, (1, 4))
    both(env, lambda c, e: G.remove_redundancies(c, e, eps), p, "merged")


def radial(env, n, args):
    G = env.mod("grid")
    p = Pick(env, args)
    p("x", n, (0, 4))
    p("f", n)
    both(env, lambda x, f: G._BaseRadialGrid(x).integrate(f), p, "radial integral")


def cubic(env, shape, args):
    G = env.mod("grid")
    n = shape[0] * shape[1] * shape[2]
    p = Pick(env, args)
    p("o", 3)
    p("d", 3, (1, 4))
    p("f", n)

    def f(o, d, f):
        g = G.CubicGrid(o, env.np.diag(d), env.np.array(shape))
        return g.points, g.integrate(f)
    both(env, f, p, "box")


def from_molecule(env, args):
    G = env.mod("grid")
    taken = []

    class Box:
        def __init__(self, origin, axes, shape):
            taken.append((origin, axes, shape))
    G.CubicGrid.__init__ = lambda self, origin, axes, shape: taken.append((origin, axes, shape))
    h, ext = env.pos("h", sample=(0.3, 0.9)), env.real("ext", lo=0, sample=(0.5, 2))
    p = Pick(env, args)
    p("q", 2, (1, 4))
    p("z", (2, 3))

    def f(q, z):
        G.CubicGrid.from_molecule(q, z, spacing=h, extension=ext, rotate=False)
        return taken[-1]
    both(env, f, p, "box")


def fit_args(env, n, nb, args):
    p = Pick(env, args)
    p("x", n, (1, 4))
    p("f", n, (1, 4))
    p("c", nb, (1, 4))
    p("e", nb, (1, 4))
    return p


def objective(env, meas, ns, np_, spherical, mode, args):
    F, M, ME = env.mod("fit"), env.mod("model"), env.mod("measure")
    w = env.posreals("w", 2)
    nb = ns + np_
    p = fit_args(env, 2, nb, args)
    p("wt", 2)

    def f(x, f, c, e, wt):
        g = QuadGrid(x, w, env)
        m = M.AtomicGaussianDensity(x, num_s=ns, num_p=np_, normalize=True)
        fit = F.ScipyFit(g, f, m, measure=ME.SquaredDifference() if meas == "ls" else ME.KLDivergence(mask_value=0.), weights=wt, spherical=spherical, mask_value=0.)
        if mode == "both":
            y, more = env.np.concatenate((c, e)), ()
        else:
            y, more = (c, ("fixed_expons", e)) if mode == "coeffs" else (e, ("fixed_coeffs", c))
        return fit.integral_dens, fit.func(y, *more), fit.const_norm(y, *more), fit.goodness_of_fit(c, e)
    both(env, f, p, "fit")


def scipy_run(env, ns, np_, mode, args):
    F, M, ME = env.mod("fit"), env.mod("model"), env.mod("measure")
    w = env.posreals("w", 2)
    nb = ns + np_
    oc, oe = mode in ("both", "coeffs"), mode in ("both", "exps")
    dim = nb * (oc + oe)
    p = fit_args(env, 2, nb, args)
    y = env.posreals("y", dim)
    seen = []

    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, constraints=(), options=None, callback=None, **kw):
        seen.append((x0, fun(env.vec(*y), *args)))
        return Res(x=env.vec(*y), fun=env.frac(1), jac=env.vec(*[0] * dim), success=True, message="any", nit=1, status=0, nfev=1, njev=1)
    env.hook("minimize", minimize)

    def f(x, f, c, e):
        fit = F.ScipyFit(QuadGrid(x, w, env), f, M.AtomicGaussianDensity(x, num_s=ns, num_p=np_, normalize=True), measure=ME.SquaredDifference(), mask_value=0.)
        r = fit.run(c, e, opt_coeffs=oc, opt_expons=oe)
        return r["coeffs"], r["exps"], r["performance"], seen[-1]
    both(env, f, p, "fit")


def fixed_point(env, ns, np_, spherical, mode, args):
    F, M = env.mod("fit"), env.mod("model")
    w = env.posreals("w", 2)
    nb = ns + np_
    p = fit_args(env, 2, nb, args)

    def f(x, f, c, e):
        m = M.AtomicGaussianDensity(x, num_s=ns, num_p=np_, normalize=True)
        fit = F.KLDivergenceFPI(QuadGrid(x, w, env), f, m, spherical=spherical)
        fit.goodness_of_fit = lambda *a: [0.] * 5
        r = fit.run(c, e, opt_coeffs=mode != "exps", opt_expons=mode != "coeffs", maxiter=1)
        return fit.lagrange_multiplier, r["coeffs"], r["exps"]
    both(env, f, p, "step")


def starts(env, cls, spherical, args):
    G = env.mod("greedy")
    w = env.posreals("w", 2)
    nn = env.posreals("nn", 2)
    p = Pick(env, args)
    p("x", 2, (1, 4))
    p("f", 2, (1, 4))
    p("e", 2, (1, 4))
    a = p.a["x"]
    env.assume(env.not_(a[0] * a[0] == a[1] * a[1]) if "x" not in args else bool(a[0] != a[1]))
    taken = []
    env.hook("nnls", lambda m, b, *r, **k: (taken.append((m, b)), (nn, 0.))[1])

    def f(x, f, e):
        g = QuadGrid(x, w, env)
        if cls == "kl":
            return G.GreedyKLFPI(g, f, spherical=spherical, mask_value=0.).get_best_one_function_solution()
        s = G.GreedyLeastSquares(g, f, spherical=spherical)
        one = [s._solve_one_function_weight(v) if hasattr(s, "_solve_one_function_weight") else 0. for v in (f, f * f)]
        s.model.change_numb_s_and_numb_p(1, 1)
        s.fitting_obj.run = lambda c0, e0, *a, **k: dict(coeffs=c0, exps=e0)
        out = s.get_optimization_routine(env.np.hstack((f[:2], e)))
        return one, taken[-1], out
    both(env, f, p, "start")


def orbitals(env, numbers, args):
    S = env.mod("density").SlaterAtoms
    k = len(numbers)
    num = env.np.array([[x] for x in numbers])
    p = Pick(env, args)
    p("z", (k, 1), (1, 4))
    p("r", 2, (0, 4))
    both(env, lambda z, r: (S.radial_slater_orbital(z, num, r), S.derivative_radial_slater_type_orbital(z, num, r)), p, "orbitals")


def density(env, case):
    at, data = C24.atom(env, case)
    p = Pick(env, "r")
    p("r", 2, (0, 4))

    def f(r):
        return at.phi_matrix(r), [at.atomic_density(r, mode=m) for m in ("total", "core", "valence")], at.derivative_density(r), at.positive_definite_kinetic_energy(r)
    both(env, f, p, "density")


def jobs(tier):
    T = tier == "thorough"
    out = []

    def add(f, **kw):
        out.append(Job(f, kw, concrete=4, max_paths=4000, branch_timeout=0.1))
    for which in ("ls", "kl", "ts", "tsh"):
        for args in ("f", "g", "fg"):
            add(measure, which=which, args=args, n=6 if T else 4)
    sizes = ((1, 0), (0, 1), (1, 1), (2, 1), (2, 2)) + (((3, 2), (3, 3)) if T else ())
    for normalize in (False, True):
        for ns, np_ in sizes:
            for args in ("x", "c", "e", "ce", "xz", "xzce"):
                add(atomic, dim=3 if args in ("c", "e") else 0, ns=ns, np_=np_, normalize=normalize, args=args)
        for args in ("x", "z", "c", "e", "ce"):
            for model in ("mol", "molsp"):
                add(molecular, model=model, dim=0 if args == "z" else 2, normalize=normalize, args=args)
    for which in ("get_next_choices", "get_two_next_choices", "pick_two_lose_one"):
        for args in ("c", "e", "ce"):
            for n in (1, 2, 3, 4) + ((5, 6) if T else ()):
                add(candidates, which=which, n=n, args=args)
    for args in ("c", "e", "ce"):
        for n in (2, 3, 4) + ((5,) if T else ()):
            add(redundant, n=n, args=args)
    for args in ("x", "f", "xf"):
        add(radial, n=6 if T else 4, args=args)
    for args in ("o", "d", "f", "od"):
        for shape in ((2, 1, 2), (1, 2, 3)) + (((2, 3, 2),) if T else ()):
            add(cubic, shape=shape, args=args)
    for args in ("q", "z", "qz"):
        add(from_molecule, args=args)
    for ns, np_ in sizes if T else ((1, 0), (1, 1), (2, 1)):
        for j, mode in enumerate(("both", "coeffs", "exps")):
            for args in ("x", "f", "c", "e", "ce", "wt"):
                for meas in ("ls", "kl") if T else (("ls", "kl")[(j + ns + np_) % 2],):
                    add(objective, meas=meas, ns=ns, np_=np_, spherical=j == 1, mode=mode, args=(args,) if args == "wt" else args)
            for args in ("x", "f", "c", "e", "ce"):
                add(fixed_point, ns=ns, np_=np_, spherical=j == 0, mode=mode, args=args)
                add(scipy_run, ns=ns, np_=np_, mode=mode, args=args)
    for cls in ("ls", "kl"):
        for args in ("x", "f", "e", "xf"):
            add(starts, cls=cls, spherical=args != "f", args=args)
    for numbers in ([1], [2], [1, 3], [2, 1, 4]):
        for args in ("z", "r", "zr"):
            add(orbitals, numbers=numbers, args=args)
    for case in range(4):
        add(density, case=case)
    return out
