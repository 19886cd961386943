"""C09: cubic grid lattice, weights and Riemann sum."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["grid.CubicGrid.__init__", "grid.CubicGrid._calculate_volume", "grid.CubicGrid._choose_weight_scheme", "grid.CubicGrid.integrate", "grid.CubicGrid.points/axes/__len__"]
BOUNDS = {"shape": "up to 4 x 3 x 2 in every order, 1 x 7 x 1, 6 x 1 x 5, 2 x 2 x 9, 11 x 10 x 10 (thorough also up to 7 x 8 x 6), any axes and origin"}
ASSUMPTIONS = ["real arithmetic", "three-dimensional grids"]


def det(a):
    return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
            + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))


def lattice(env, shape, as_array):
    G = env.mod("grid").CubicGrid
    o = env.reals("o", 3)
    a = env.reals("a", (3, 3))
    so, sa = env.snapshot(o), env.snapshot(a)
    nx, ny, nz = shape
    n = nx * ny * nz
    g = G(o, a, env.np.array(shape, dtype=int) if as_array else tuple(shape))
    pts = g.points
    env.check(pts.shape == (n, 3) and len(g) == n, "number of points")
    ref = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                ref.append([o[c] + i * a[0, c] + j * a[1, c] + k * a[2, c] for c in range(3)])
    for q in range(n):
        for c in range(3):
            env.eq(pts[q, c], ref[q][c], f"point {q} coordinate {c}")
    env.unchanged(o, so, "origin unchanged")
    env.unchanged(a, sa, "axes unchanged")
    env.eq(g.axes, a, "axes reported")
    # weights through the public integral: linear functional with equal weights |det|
    f = env.reals("f", n)
    sf = env.snapshot(f)
    cell = env.abs(det(a))
    env.eq(g.integrate(f), cell * env.sum(f[q] for q in range(n)), "Riemann sum")
    env.eq(g.integrate(env.vec(*[1] * n)), n * cell, "weights add up to the volume of the box")
    env.eq(g.integrate(f), cell * env.sum(f[q] for q in range(n)), "Riemann sum again")
    env.unchanged(f, sf, "integrand unchanged")
    env.unchanged(g.points, pts, "points unchanged")
    env.check(env.raises(ValueError, g.integrate, env.reals("long", n + 1)), "longer integrand is refused")
    env.check(env.raises(ValueError, g.integrate, env.reals("two", (n, 1))), "two-dimensional integrand is refused")
    if n > 1:
        env.check(env.raises(ValueError, g.integrate, env.reals("one", 1)), "one-element integrand is refused")
        env.check(env.raises(ValueError, g.integrate, env.reals("short", n - 1)), "shorter integrand is refused")


def two_grids(env):
    """grids alive at the same time do not share anything."""
    G = env.mod("grid").CubicGrid
    o1, a1 = env.reals("o1", 3), env.reals("a1", (3, 3))
    o2, a2 = env.reals("o2", 3), env.reals("a2", (3, 3))
    g1 = G(o1, a1, (2, 1, 1))
    g2 = G(o2, a2, (1, 2, 1))
    f = env.reals("f", 2)
    env.eq(g1.integrate(f), env.abs(det(a1)) * (f[0] + f[1]), "first grid")
    env.eq(g2.integrate(f), env.abs(det(a2)) * (f[0] + f[1]), "second grid")
    overwrite(env, f, "f1")
    env.eq(g1.integrate(f), env.abs(det(a1)) * (f[0] + f[1]), "first grid, integrand overwritten")
    env.eq(g2.integrate(f), env.abs(det(a2)) * (f[0] + f[1]), "second grid, integrand overwritten")
    env.eq(g1.points[1], env.vec(*[o1[c] + a1[0, c] for c in range(3)]), "point of the first grid")
    env.eq(g2.points[1], env.vec(*[o2[c] + a2[1, c] for c in range(3)]), "point of the second grid")


def jobs(tier):
    T = tier == "thorough"
    shapes = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 3, 1), (3, 2, 2), (2, 3, 4), (4, 3, 2), (3, 2, 4), (1, 7, 1), (6, 1, 5), (2, 2, 9), (11, 10, 10)]
    if T:
        shapes += [(5, 4, 3), (3, 4, 5), (4, 5, 3), (2, 2, 2), (3, 3, 3), (1, 5, 2), (6, 1, 2), (7, 8, 6), (12, 3, 2), (1, 1, 40)]
    out = [Job(lattice, dict(shape=s, as_array=k % 2 == 0), concrete=4) for k, s in enumerate(shapes)]
    out.append(Job(two_grids, {}, concrete=4))
    return out
