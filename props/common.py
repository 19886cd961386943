"""Pieces shared by the harnesses: documented formulas and small grid / model stand-ins."""


def r2_at(env, pts, i, center):
    if pts.ndim == 1:
        d = pts[i] - center[0]
        return d * d
    return env.sum((pts[i, k] - center[k]) * (pts[i, k] - center[k]) for k in range(pts.shape[1]))


def basis_at(env, r2, e, kind, normalize):
    """documented s- or p-type function of squared distance r2."""
    f = env.exp(-(e * r2))
    if kind == "p":
        f = f * r2
    if normalize:
        if kind == "s":
            f = f * env.pow(e / env.pi, env.frac(3, 2))
        else:
            f = f * env.pow(e, env.frac(5, 2)) * 2 / (3 * env.pow(env.pi, env.frac(3, 2)))
    return f


def atomic_value(env, pts, center, ns, np_, c, e, normalize):
    """documented atomic model, one entry per point."""
    out = []
    for i in range(pts.shape[0]):
        r2 = r2_at(env, pts, i, center)
        out.append(env.sum(c[k] * basis_at(env, r2, e[k], "s" if k < ns else "p", normalize) for k in range(ns + np_)))
    return env.vec(*out)


def points(env, npts, dim, name="x"):
    """dim 0 stands for a one-dimensional array of points."""
    return env.reals(name, (npts,) if dim == 0 else (npts, dim))


def exponents(env, name, n, normalize):
    """any exponents; non-negative when the normalisation takes a power of them."""
    return env.reals(name, n, lo=0) if normalize else env.reals(name, n)


class QuadGrid:
    """a user-supplied grid: any points, any quadrature weights."""

    def __init__(self, pts, w, env):
        self.points, self.w, self.env = pts, w, env
        self.calls = 0

    def __len__(self):
        return len(self.points)

    def integrate(self, arr):
        self.calls += 1
        if arr.shape != self.w.shape:
            raise ValueError("shape")
        return self.env.sum(self.w[i] * arr[i] for i in range(len(self.w)))


def make_grid(env, kind, n):
    """(grid, weights): weights are those of its integral as a linear functional."""
    G = env.mod("grid")
    if kind in ("quad", "quad3", "qpos"):
        pts = env.reals("x", n, lo=0) if kind != "quad3" else env.reals("x", (n, 3))
        w = env.reals("w", n) if kind != "qpos" else env.posreals("w", n)
        return QuadGrid(pts, w, env), [w[i] for i in range(n)]
    if kind in ("radial", "uniform"):
        if kind == "radial":
            steps = [env.pos(f"d{i}") for i in range(n)]
            g = G.ClenshawRadialGrid(1, 0, 0, extra_pts=[env.sum(steps[:i + 1]) for i in range(n)], dtype=float)
        else:
            g = G.UniformRadialGrid(n, env.frac(0), env.real("hi", lo=1), dtype=float)
        r = g.points
        return g, [((r[i + 1] if i + 1 < n else r[i]) - (r[i - 1] if i else r[i])) / 2 for i in range(n)]
    if kind == "cubic":
        h = env.pos("h")
        o = env.reals("o", 3)
        axes = env.arr([[h, 0, 0], [0, h, 0], [0, 0, h]]) if not env.symbolic else env.np.array([[h, 0, 0], [0, h, 0], [0, 0, h]])
        g = G.CubicGrid(o, axes, (n, 1, 1))
        return g, [h * h * h] * n
    raise ValueError(kind)


MOLECULES = {"mol": [(1, 0), (1, 0)], "molsp": [(1, 1), (0, 1)], "molps": [(0, 1), (1, 0)], "mol1": [(1, 1)], "mol3": [(1, 0), (1, 1), (0, 1)], "mol4": [(2, 1), (0, 2), (1, 0), (1, 1)]}


def make_model(env, grid, kind, normalize=True):
    """(model, number of functions) for kind 's', 'sp', 'ssp', ... or one of MOLECULES"""
    M = env.mod("model")
    pts = grid.points
    if kind.startswith("mol"):
        basis = MOLECULES[kind]
        cols = 1 if pts.ndim == 1 else pts.shape[1]
        coords = env.reals("m", (len(basis), cols))
        return M.MolecularGaussianDensity(pts, coords, env.np.array(basis), normalize=normalize), sum(a + b for a, b in basis)
    ns, np_ = kind.count("s"), kind.count("p")
    return M.AtomicGaussianDensity(pts, num_s=ns, num_p=np_, normalize=normalize), ns + np_


def volume_weights(env, grid, w, spherical):
    if not spherical:
        return list(w)
    return [w[i] * 4 * env.pi * grid.points[i] * grid.points[i] for i in range(len(w))]


def integral(env, vw, f):
    return env.sum(vw[i] * f[i] for i in range(len(vw)))


def overwrite(env, arr, name, **opts):
    """new values for every entry of an array, in place: what a caller that keeps one work array does."""
    new = env.reals(name, arr.shape, **opts)
    if len(arr.shape) == 1:
        for i in range(arr.shape[0]):
            arr[i] = new[i]
    else:
        for i in range(arr.shape[0]):
            for j in range(arr.shape[1]):
                arr[i, j] = new[i, j]


def paired(env, got, want):
    """got reordered so that entry k is the one closest to want[k] (each used once); None where nothing is left."""
    g = [env.probe(list(x)) for x in got]
    w = [env.probe(list(x)) for x in want]
    left, out = list(range(len(got))), []
    for x in w:
        def dist(i):
            if len(g[i]) != len(x):
                return float("inf")
            return sum(abs(a - b) for a, b in zip(g[i], x))
        if not left:
            out.append(None)
            continue
        k = min(left, key=lambda i: (round(dist(i), 9), i))
        left.remove(k)
        out.append(got[k])
    return out
