"""C08: points of the uniform and Clenshaw grids."""
from vf.engine import Job

FUNCTIONS = ["grid.UniformRadialGrid.__init__", "grid.ClenshawRadialGrid.__init__", "grid.ClenshawRadialGrid._get_points", "grid._BaseRadialGrid.points"]
BOUNDS = {"uniform": "1-12 and 1100 (thorough 3000) points, any limits", "clenshaw": "0-4 core, 0-4 diffuse, 0-2 extra points (thorough 0-7 / 0-7 / 3), any atomic number from 1 to 200"}
ASSUMPTIONS = ["cosines of rational multiples of pi enter the solver as reals enclosed within 1e-9 of their value"]


def uniform(env, n):
    G = env.mod("grid").UniformRadialGrid
    lo, hi = env.real("lo", sample=(-1, 1)), env.real("hi", sample=(-1, 9))
    if not env.holds(lo < hi):
        env.check(env.raises(ValueError, G, n, lo, hi), "empty interval is refused")
        return
    g = G(n, min_radii=lo, max_radii=hi, dtype=float)
    env.check(g.points.shape == (n,), "number of points")
    if n == 1:
        env.eq(g.points[0], lo, "single point")
        return
    env.eq(g.points, env.vec(*[lo + (hi - lo) * i / (n - 1) for i in range(n)]), "points")
    if n == 3:
        d = G(n)
        env.eq(d.points, env.vec(0, 50, 100), "default limits")
    env.eq(g.points[0], lo, "first point")
    env.eq(g.points[n - 1], hi, "last point")
    for i in range(n - 1):
        env.eq(g.points[i + 1] - g.points[i], (hi - lo) / (n - 1), f"equal step {i}")


def documented(env, Z, m, n, origin):
    core = [(1 - env.cos(env.pi * p / (2 * m))) / (2 * Z) for p in (range(0, m) if origin else range(1, m + 1))]
    diff = [25 * (1 - env.cos(env.pi * p / (2 * n))) for p in range(1, n + 1)]
    return core, diff


def insertion_sort(env, xs):
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and env.holds(x < out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def clenshaw(env, m, n, origin, extra):
    G = env.mod("grid").ClenshawRadialGrid
    Z = env.int("Z", lo=1, hi=200)
    xs = [env.real(f"x{i}", sample=(0, 60)) for i in range(extra)]
    core, diff = documented(env, Z, m, n, origin)
    g = G(Z, m, n, extra_pts=list(xs) if extra else None, include_origin=origin, dtype=float)
    got = g.points
    env.check(got.shape == (m + n + extra,), "number of points")
    env.eq(g.atomic_number, Z, "atomic number")
    for i in range(m + n + extra - 1):
        env.le(got[i], got[i + 1], f"ascending {i}")
    ref = insertion_sort(env, core + diff + xs)
    if ref:
        env.eq(got, env.vec(*ref), "points")


def symmetric(env, m, n, extra):
    """sums of powers, independent of any order."""
    G = env.mod("grid").ClenshawRadialGrid
    Z = env.int("Z", lo=1, hi=200)
    for origin in (True, False):
        core, diff = documented(env, Z, m, n, origin)
        g = G(Z, m, n, include_origin=origin, dtype=float)
        env.eq(env.sum(g.points[i] for i in range(m + n)), env.sum(core + diff), f"sum of the points {origin}")
        env.eq(env.sum(g.points[i] * g.points[i] for i in range(m + n)), env.sum(x * x for x in core + diff), f"sum of squares {origin}")
    g = G(Z, m, n, dtype=float)
    core, diff = documented(env, Z, m, n, True)
    env.eq(env.sum(g.points[i] for i in range(m + n)), env.sum(core + diff), "the origin is included by default")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for n in ((1, 2, 3, 4, 7, 12, 25, 3000) if T else (1, 2, 3, 7, 12, 1100)):
        out.append(Job(uniform, dict(n=n), concrete=8))
    top = 7 if T else 4
    for m in range(top + 1):
        for n in range(top + 1):
            if m + n == 0 or (not T and m + n in (6, 7) and m != n):
                continue
            for origin in (True, False):
                out.append(Job(clenshaw, dict(m=m, n=n, origin=origin, extra=0), concrete=3))
    for m, n, x in [(0, 0, 2), (1, 1, 1), (2, 2, 1), (2, 1, 2), (0, 2, 1), (2, 0, 1)] + ([(3, 3, 2), (2, 2, 3), (4, 4, 2)] if T else []):
        for origin in (True, False):
            out.append(Job(clenshaw, dict(m=m, n=n, origin=origin, extra=x), concrete=6, max_paths=6000))
    for m, n in ((3, 2), (6, 5)) + (((12, 12),) if T else ()):
        out.append(Job(symmetric, dict(m=m, n=n, extra=0), concrete=4))
    return out
