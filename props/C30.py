"""C30: malformed arguments are refused, never broadcast."""
from vf.engine import Job

FUNCTIONS = ["measure.SquaredDifference.evaluate", "measure.KLDivergence.evaluate", "measure.TsallisDivergence.evaluate", "model.AtomicGaussianDensity.__init__",
             "model.AtomicGaussianDensity.evaluate", "model.AtomicGaussianDensity.change_numb_s_and_numb_p", "model.MolecularGaussianDensity.__init__",
             "model.MolecularGaussianDensity.evaluate", "density.SlaterAtoms.radial_slater_orbital", "grid._BaseRadialGrid.__init__", "grid._BaseRadialGrid.integrate", "grid.CubicGrid.integrate",
             "grid.UniformRadialGrid.__init__", "grid.ClenshawRadialGrid.__init__"]
BOUNDS = {"shapes": "every pair out of the shapes of up to two dimensions with up to 3 entries a side (4 in thorough)", "numbers of functions": "any integers from -3 to 5",
          "values": "any reals"}
ASSUMPTIONS = ["arguments are arrays, lists, integers, booleans or None; no other array-like types"]


def shapes(top):
    return [(n,) for n in range(0, top + 1)] + [(n, m) for n in range(1, top + 1) for m in (1, 2)]


def make(env, name, shape, form="array", lo=0.5, hi=2):
    """values that no measure or model minds."""
    if form == "list":
        return [env.real(f"{name}_{i}", lo=lo, hi=hi, sample=(lo, hi)) for i in range(shape[0])]
    if 0 in shape:
        return env.np.zeros(shape)
    return env.reals(name, shape, lo=lo, hi=hi, sample=(lo, hi))


def measure(env, which, top):
    m = env.mod("measure")
    M = {"ls": lambda: m.SquaredDifference(), "kl": lambda: m.KLDivergence(), "ts": lambda: m.TsallisDivergence(alpha=env.frac(2))}[which]()
    sf, sg = env.choice("fs", shapes(top)), env.choice("gs", shapes(top))
    form = env.choice("form", ["array", "f list", "g list"])
    f = make(env, "f", sf, "list" if form == "f list" and len(sf) == 1 else "array")
    g = make(env, "g", sg, "list" if form == "g list" and len(sg) == 1 else "array")
    deriv = env.flag("deriv")
    ok = sf == sg and len(sf) == 1 and not isinstance(f, list) and not isinstance(g, list)
    if sf == (0,) and ok:
        return      # an empty density is not specified
    val, exc = env.attempt(M.evaluate, f, g, deriv=deriv)
    if ok:
        env.check(exc is None, "density and model of one length are accepted")
        if exc is None:
            parts = val if deriv else (val,)
            env.check(len(parts) == 1 + deriv and all(p.shape == sf for p in parts), "one entry per point")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "everything else is refused")


def measure_deriv(env, which):
    m = env.mod("measure")
    M = {"ls": lambda: m.SquaredDifference(), "kl": lambda: m.KLDivergence(), "ts": lambda: m.TsallisDivergence(alpha=env.frac(2))}[which]()
    f, g = env.posreals("f", 2), env.posreals("g", 2)
    for bad in (1, 0, None, "yes", 2.5):
        env.check(env.raises((TypeError, ValueError), M.evaluate, f, g, bad), f"deriv={bad!r} is refused")


def atomic_new(env, top):
    A = env.mod("model").AtomicGaussianDensity
    sp = env.choice("ps", [(n,) for n in range(1, top + 1)] + [(n, m) for n in range(1, top + 1) for m in (1, 2, 3)])
    sc = env.choice("cs", [None] + [(n,) for n in range(1, top + 1)] + [(1, 1), (2, 3)])
    pts = make(env, "x", sp)
    cols = 1 if len(sp) == 1 else sp[1]
    cen = None if sc is None else make(env, "c", sc)
    kw = {} if cen is None else {"center": cen}
    obj, exc = env.attempt(A, pts, num_s=1, num_p=1, **kw)
    if sc is None or sc == (cols,):
        env.check(exc is None, "a centre of the dimension of the points is accepted")
        if exc is None:
            env.check(obj.radii.shape == (sp[0],), "one distance per point")
            for i in range(sp[0]):
                d = [(pts[i, k] if len(sp) == 2 else pts[i]) - (0 if cen is None else cen[k]) for k in range(cols)]
                env.eq(obj.radii[i] * obj.radii[i], env.sum(t * t for t in d), f"distance of point {i}")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "any other centre is refused")
    env.check(env.raises((TypeError, ValueError), A, [env.real("p0"), env.real("p1")]), "points that are no array are refused")
    env.check(env.raises((TypeError, ValueError), A, pts, [env.real("p2")] * cols), "a centre that is no array is refused")


def atomic_numbers(env, change):
    """numbers of functions: accepted exactly when neither is negative nor both are zero."""
    A = env.mod("model").AtomicGaussianDensity
    pts = env.reals("x", 2)
    ns, np_ = env.choice("ns", list(range(-3, 6))), env.choice("np", list(range(-3, 6)))
    if change:
        obj = A(pts, num_s=2, num_p=1)
        _, exc = env.attempt(obj.change_numb_s_and_numb_p, ns, np_)
    else:
        obj, exc = env.attempt(A, pts, num_s=ns, num_p=np_)
    if ns >= 0 and np_ >= 0 and ns + np_ > 0:
        env.check(exc is None, "accepted")
        if exc is None:
            env.check(obj.num_s == ns and obj.num_p == np_ and obj.nbasis == ns + np_, "numbers kept")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "refused")
        if change:
            env.check(obj.num_s == 2 and obj.num_p == 1, "refused numbers leave the model as it was")
    for bad in (1.5, None, "2"):
        if change:
            env.check(env.raises((TypeError, ValueError), obj.change_numb_s_and_numb_p, bad, 1), f"number {bad!r} refused")
            env.check(env.raises((TypeError, ValueError), obj.change_numb_s_and_numb_p, 1, bad), f"number {bad!r} refused")
        else:
            env.check(env.raises((TypeError, ValueError), A, pts, num_s=bad, num_p=1), f"number {bad!r} refused")
            env.check(env.raises((TypeError, ValueError), A, pts, num_s=1, num_p=bad), f"number {bad!r} refused")


def evaluate(env, kind, ns, np_, top):
    m = env.mod("model")
    n = ns + np_
    if kind == "atomic":
        obj = m.AtomicGaussianDensity(env.reals("x", 2), num_s=ns, num_p=np_)
    else:
        obj = m.MolecularGaussianDensity(env.reals("x", (2, 2)), env.reals("m", (2, 2)), env.np.array([[ns, 0], [0, np_]]))
    sc, se = env.choice("cs", shapes(top)), env.choice("es", shapes(top))
    deriv = env.flag("deriv")
    c, e = make(env, "c", sc), make(env, "e", se)
    val, exc = env.attempt(obj.evaluate, c, e, deriv)
    if sc == se == (n,):
        env.check(exc is None, "one coefficient and one exponent per function are accepted")
        if exc is None:
            env.check((val[0] if deriv else val).shape == (2,) and (not deriv or val[1].shape == (2, 2 * n)), "shapes of the value and of the derivative")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "everything else is refused")


def molecular_new(env, top):
    M = env.mod("model").MolecularGaussianDensity
    sp = env.choice("ps", [(2,), (3,), (2, 1), (2, 2), (3, 3)])
    sm = env.choice("ms", [(n, d) for n in range(1, top + 1) for d in (1, 2, 3)] + [(2,), (3,)])
    sb = env.choice("bs", [(n, 2) for n in range(1, top + 1)] + [(2, 1), (1, 3), (2,)])
    pts, coords = make(env, "x", sp), make(env, "m", sm)
    basis = env.np.ones(sb, dtype=int)
    cols = 1 if len(sp) == 1 else sp[1]
    obj, exc = env.attempt(M, pts, coords, basis)
    if len(sm) == 2 and len(sb) == 2 and sb[1] == 2 and sm[0] == sb[0] and sm[1] == cols:
        env.check(exc is None, "one centre of the dimension of the points and one row of numbers per atom are accepted")
        if exc is None:
            env.check(obj.natoms == sm[0] and obj.nbasis == 2 * sm[0] and obj.radii.shape == (sm[0], sp[0]), "numbers of atoms, functions and distances")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "everything else is refused")


def orbitals(env):
    A = env.mod("density").SlaterAtoms
    z, num = env.posreals("z", (2, 1)), env.np.array([[1], [2]])
    shape = env.choice("s", [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2)])
    pts = make(env, "r", shape)
    out, exc = env.attempt(A.radial_slater_orbital, z, num, pts)
    if len(shape) == 1:
        env.check(exc is None and out.shape == (shape[0], 2), "one-dimensional points are accepted")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "points of more dimensions are refused")


def radial(env):
    B = env.mod("grid").UniformRadialGrid.__mro__[1]
    shape = env.choice("s", [(1,), (3,), (1, 1), (2, 1), (1, 2), (2, 2)])
    pts = make(env, "r", shape)
    g, exc = env.attempt(B, pts)
    if len(shape) == 1:
        env.check(exc is None and len(g) == shape[0], "one-dimensional points are accepted")
        env.eq(g.points, pts, "points")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "points of more dimensions are refused")
    env.check(env.raises((ValueError, TypeError), B, [env.real("a"), env.real("b")]), "points that are no array are refused")


def uniform_new(env):
    G = env.mod("grid").UniformRadialGrid
    n = env.choice("n", [-2, -1, 0, 1, 2, 3, 2.0, 1.5, None, "3"])
    lo, hi = env.real("lo", sample=(-1, 1)), env.real("hi", sample=(-1, 3))
    g, exc = env.attempt(G, n, lo, hi, dtype=float)
    if isinstance(n, int) and n > 0 and env.holds(hi > lo):
        env.check(exc is None and len(g) == n, "a positive number of points in an interval of positive length is accepted")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "any other number of points or interval is refused")
    for bad in (None, "1", [0.0]):
        env.check(env.raises((ValueError, TypeError), G, 3, bad, hi), f"lower limit {bad!r} is refused")
        env.check(env.raises((ValueError, TypeError), G, 3, lo, bad), f"upper limit {bad!r} is refused")


def clenshaw_new(env):
    G = env.mod("grid").ClenshawRadialGrid
    z, m, n = env.choice("z", [-2, -1, 0, 1, 5]), env.choice("m", [-2, -1, 0, 1, 3]), env.choice("n", [-2, -1, 0, 2])
    g, exc = env.attempt(G, z, m, n, dtype=float)
    if z > 0 and m >= 0 and n >= 0:
        env.check(exc is None and len(g) == m + n, "accepted")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "no charge, or negative numbers of points, are refused")
    for bad in (1.5, None, "2"):
        for args in ((bad, 2, 2), (2, bad, 2), (2, 2, bad)):
            env.check(env.raises((ValueError, TypeError), G, *args), f"{args} is refused")
        env.check(env.raises((ValueError, TypeError), G, 2, 2, 2, include_origin=bad), f"include_origin={bad!r} is refused")
    for bad in (3, 2.5, "12"):
        env.check(env.raises((ValueError, TypeError), G, 2, 2, 2, extra_pts=bad), f"extra points {bad!r} are refused")


def integrate(env, kind):
    m = env.mod("grid")
    if kind == "radial":
        g = m.UniformRadialGrid.__mro__[1](env.reals("r", 3))
        n = 3
    else:
        g = m.CubicGrid(env.reals("o", 3), env.reals("a", (3, 3)), (1, 3, 1) if kind == "line" else (2, 1, 2))
        n = 3 if kind == "line" else 4
    shape = env.choice("s", [(1,), (2,), (3,), (4,), (5,), (1, 1), (3, 1), (1, 3), (4, 1), (1, 4), (2, 2), (3, 3)])
    val, exc = env.attempt(g.integrate, make(env, "f", shape))
    if shape == (n,):
        env.check(exc is None, "one value per point is accepted")
    else:
        env.check(isinstance(exc, (ValueError, TypeError)), "values of any other shape are refused")


def jobs(tier):
    T = tier == "thorough"
    out = []
    big = dict(max_paths=20000, concrete=60)
    for which in ("ls", "kl", "ts"):
        out.append(Job(measure, dict(which=which, top=4 if T else 3), **big))
        out.append(Job(measure_deriv, dict(which=which), concrete=2))
    out.append(Job(atomic_new, dict(top=4 if T else 3), **big))
    for change in (False, True):
        out.append(Job(atomic_numbers, dict(change=change), **big))
    for kind, ns, np_ in (("atomic", 1, 0), ("atomic", 0, 2), ("atomic", 2, 1), ("molecular", 1, 1), ("molecular", 1, 2)):
        out.append(Job(evaluate, dict(kind=kind, ns=ns, np_=np_, top=4), **big))
    out.append(Job(molecular_new, dict(top=3), **big))
    out.append(Job(orbitals, {}, concrete=20))
    out.append(Job(radial, {}, concrete=20))
    out.append(Job(uniform_new, {}, concrete=30))
    out.append(Job(clenshaw_new, {}, **big))
    for kind in ("radial", "line", "block"):
        out.append(Job(integrate, dict(kind=kind), concrete=20))
    return out
