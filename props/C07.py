"""C07: radial integration is the trapezoid rule."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["grid._BaseRadialGrid.__init__", "grid._BaseRadialGrid.integrate", "grid.UniformRadialGrid.__init__", "grid.ClenshawRadialGrid.__init__"]
BOUNDS = {"points": "1-6 arbitrary points, 1100 equally spaced (thorough 3000)", "history": "three integrations on one grid"}
ASSUMPTIONS = ["real arithmetic"]


def make(env, kind, n):
    G = env.mod("grid")
    if kind == "base":
        return G.UniformRadialGrid.__mro__[1](env.reals("r", n))
    if kind == "uniform":
        lo = env.real("lo", lo=0)
        hi = env.real("hi", lo=0, sample=(3, 9))
        env.assume(lo < hi)
        return G.UniformRadialGrid(n, lo, hi, dtype=float)
    steps = [env.pos(f"d{i}") for i in range(n)]
    pts = [env.sum(steps[:i + 1]) for i in range(n)]
    return G.ClenshawRadialGrid(1, 0, 0, extra_pts=pts, dtype=float)


def trap(env, r, f):
    return env.sum((r[i + 1] - r[i]) * (f[i] + f[i + 1]) / 2 for i in range(len(r) - 1))


def rule(env, kind, n):
    g = make(env, kind, n)
    r = g.points
    env.check(len(g) == n and r.shape == (n,), "number of points")
    f, h = env.reals("f", n), env.reals("h", n)
    a, b = env.real("a"), env.real("b")
    sr, sf = env.snapshot(r), env.snapshot(f)
    v = g.integrate(f)
    env.eq(v, trap(env, r, f), "trapezoid sum")
    w = g.integrate(h)
    env.eq(w, trap(env, r, h), "second trapezoid sum")
    env.eq(g.integrate(env.vec(*[a * f[i] + b * h[i] for i in range(n)])), a * v + b * w, "linearity")
    env.eq(g.integrate(f), v, "independent of earlier calls")
    env.unchanged(f, sf, "integrand unchanged")
    env.unchanged(g.points, sr, "points unchanged")
    # straight line
    line = env.vec(*[a + b * r[i] for i in range(n)])
    env.eq(g.integrate(line), a * (r[n - 1] - r[0]) + b * (r[n - 1] * r[n - 1] - r[0] * r[0]) / 2, "exact for straight lines")
    # sign
    p = env.reals("p", n, lo=0)
    if kind != "base":
        env.le(0, g.integrate(p), "non-negative for a non-negative integrand")
    # shape
    env.check(env.raises(ValueError, g.integrate, env.reals("q", n + 1)), "longer integrand is refused")
    env.check(env.raises(ValueError, g.integrate, env.reals("qq", (n, 1))), "two-dimensional integrand is refused")
    env.check(env.raises(ValueError, g.integrate, env.reals("q1", (1,))) if n != 1 else True, "one-element integrand is refused")
    env.check(env.raises(ValueError, g.integrate, env.reals("q0", n - 1)) if n > 1 else True, "shorter integrand is refused")


def rewritten(env, kind, n):
    """the caller overwrites its integrand array between integrations; two grids alive at once."""
    g, other = make(env, kind, n), env.mod("grid").UniformRadialGrid(n, env.frac(1), env.real("top", lo=2), dtype=float)
    f = env.reals("f", n)
    for t in range(3):
        if t:
            overwrite(env, f, f"f{t}")
        env.eq(g.integrate(f), trap(env, g.points, f), f"trapezoid sum after {t} overwrites")
        env.eq(other.integrate(f), trap(env, other.points, f), f"other grid after {t} overwrites")


def wide(env, n):
    g = env.mod("grid").UniformRadialGrid(n, 0.5, env.real("hi", lo=1), dtype=float)
    f = env.reals("f", n)
    env.eq(g.integrate(f), trap(env, g.points, f), "trapezoid sum")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for kind in ("base", "uniform", "clenshaw"):
        for n in ((1, 2, 3, 4, 6, 8) if T else (1, 2, 3, 5)):
            out.append(Job(rule, dict(kind=kind, n=n), concrete=8))
        for n in (2, 3):
            out.append(Job(rewritten, dict(kind=kind, n=n), concrete=4))
    out.append(Job(wide, dict(n=3000 if T else 1100), concrete=3))
    return out
