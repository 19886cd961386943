"""C10: a cubic grid built from a molecule encloses it with the requested margin."""
from fractions import Fraction as F

from vf.engine import Job

FUNCTIONS = ["grid.CubicGrid.from_molecule", "grid.CubicGrid.__init__ (bounded instances)"]
BOUNDS = {"atoms": "1-4 and 8 (thorough 6, 8 and 10) axis-aligned; 1-3 (thorough 4) rotated", "charges": "symbolic for 1-2 atoms (any number without rotation), three fixed charges for 3 rotated atoms", "rotation": "two rational rotations / reflections, permutations, and rotations by any angle about each Cartesian axis stand for the eigenvectors",
          "shape": "any in the instances that capture (origin, axes, shape); up to 3 points per axis where the grid itself is built"}
ASSUMPTIONS = ["numpy.linalg.eigh returns an orthonormal matrix that diagonalises its argument (replaced by any such matrix from the families above)",
               "positive nuclear charges, spacing and non-negative extension", "real arithmetic"]

ROT = {
    "identity": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "cycle": [[0, 0, 1], [1, 0, 0], [0, 1, 0]],
    "swap": [[0, 1, 0], [1, 0, 0], [0, 0, 1]],
    "q1": [[F(1, 3), F(2, 3), F(2, 3)], [F(2, 3), F(1, 3), F(-2, 3)], [F(-2, 3), F(2, 3), F(-1, 3)]],
    "q2": [[F(2, 7), F(3, 7), F(6, 7)], [F(6, 7), F(2, 7), F(-3, 7)], [F(-3, 7), F(6, 7), F(-2, 7)]],
}


def rotation(env, name):
    if name in ROT:
        return env.arr([[env.frac(F(x).numerator, F(x).denominator) for x in row] for row in ROT[name]])
    t = env.real("t")
    u = 1 + t * t
    c, s = (1 - t * t) / u, 2 * t / u          # every rotation angle but pi
    i, j, k = {"x": (1, 2, 0), "y": (2, 0, 1), "z": (0, 1, 2)}[name]
    m = [[0] * 3 for _ in range(3)]
    m[i][i], m[i][j], m[j][i], m[j][j], m[k][k] = c, -s, s, c, 1
    return env.arr([[env.frac(x) if isinstance(x, int) else x for x in row] for row in m])


def setup(env, natoms, rot, diag=False):
    """hook eigh with the contract of an orthonormal eigenvector matrix."""
    state = {}

    def eigh(M, *a, **k):
        state["M"] = M
        w = [env.real(f"w{i}") for i in range(3)]
        v = rotation(env, rot)
        for i in range(3):
            for j in range(i if diag else 0):
                env.assume(env.sum(v[a_, i] * M[a_, b_] * v[b_, j] for a_ in range(3) for b_ in range(3)) == 0)
        return env.vec(*w), v
    if env.symbolic:
        env.hook("eigh", eigh)
    return state


def inputs(env, natoms, charges=None):
    if charges:
        Z = env.vec(*[env.frac(c) for c in charges])
    else:
        Z = env.vec(*[env.real(f"z{i}", lo=0, lo_strict=True, sample=(0.5, 20)) for i in range(natoms)])
    X = env.reals("x", (natoms, 3), sample=(-3, 3))
    h = env.real("h", lo=0, lo_strict=True, sample=(0.3, 1.5))
    ext = env.real("ext", lo=0, sample=(0, 3))
    return Z, X, h, ext


def encloses(env, natoms, rotate, rot=None, charges=None):
    G = env.mod("grid").CubicGrid
    cap = {}

    class Cap(G):
        def __init__(self, origin, axes, shape):
            cap.update(origin=origin, axes=axes, shape=shape)
    setup(env, natoms, rot)
    Z, X, h, ext = inputs(env, natoms, charges)
    sz, sx = env.snapshot(Z), env.snapshot(X)
    g = Cap.from_molecule(Z, X, spacing=h, extension=ext, rotate=rotate)
    env.unchanged(Z, sz, "charges unchanged")
    env.unchanged(X, sx, "coordinates unchanged")
    env.check(isinstance(g, Cap) and set(cap) == {"origin", "axes", "shape"}, "the class the method was called on is built")
    o, a, n = cap["origin"], cap["axes"], cap["shape"]
    margin(env, X, h, ext, o, a, n, natoms)
    if not rotate:
        for i in range(3):
            for j in range(3):
                env.eq(a[i, j], h if i == j else 0, f"Cartesian axes {i}{j}", tol=1e-9)


def defaults(env):
    """steps of 0.2 and a margin of 5 along the principal axes unless told otherwise."""
    G = env.mod("grid").CubicGrid
    cap = {}

    class Cap(G):
        def __init__(self, origin, axes, shape):
            cap.update(origin=origin, axes=axes, shape=shape)
    setup(env, 2, "q1")
    Z, X, _, _ = inputs(env, 2, (1, 6))
    Cap.from_molecule(Z, X)
    margin(env, X, env.frac(1, 5), env.frac(5), cap["origin"], cap["axes"], cap["shape"], 2)
    if env.symbolic:
        a = cap["axes"]
        env.check(env.and_(*[a[i, j] * 3 == [[1, 2, -2], [2, 1, 2], [2, -2, -1]][i][j] * env.frac(1, 5) for i in range(3) for j in range(3)]), "rotated to the eigenvectors by default")


def principal(env, natoms, rot, charges=None):
    """the grid directions diagonalise the inertia tensor of the charges."""
    G = env.mod("grid").CubicGrid
    cap = {}

    class Cap(G):
        def __init__(self, origin, axes, shape):
            cap.update(axes=axes)
    setup(env, natoms, rot, diag=True)
    Z, X, h, ext = inputs(env, natoms, charges)
    Cap.from_molecule(Z, X, spacing=h, extension=ext)
    a = cap["axes"]
    tot = env.sum(Z[k] for k in range(natoms))
    com = [env.sum(Z[k] * X[k, i] for k in range(natoms)) / tot for i in range(3)]
    for i in range(3):
        for j in range(i):
            off = env.sum(Z[k] * env.sum(a[i, c] * (X[k, c] - com[c]) for c in range(3)) * env.sum(a[j, c] * (X[k, c] - com[c]) for c in range(3))
                          for k in range(natoms))
            env.eq(off, 0, f"principal axes {i}{j}", tol=1e-6)


def margin(env, X, h, ext, o, a, n, natoms):
    for i in range(3):
        for j in range(i + 1):
            env.eq(env.sum(a[i, c] * a[j, c] for c in range(3)), h * h if i == j else 0, f"orthogonal equal steps {i}{j}", tol=1e-9)
    for i in range(3):
        # coordinate along axis i, in units of length, measured from the first grid plane
        t = [env.sum((X[k, c] - o[c]) * a[i, c] for c in range(3)) / h for k in range(natoms)]
        for k in range(natoms):
            env.le(ext, t[k], f"margin below atom {k} along axis {i}", tol=1e-8)
            env.le(t[k] + ext, (n[i] - 1) * h, f"margin above atom {k} along axis {i}", tol=1e-8)
        env.le((n[i] - 1) * h, env.max(t) - env.min(t) + 2 * ext + h, f"not larger than needed along axis {i}", tol=1e-8)


def built(env, natoms, rotate, rot=None):
    """the real grid object, for boxes of a few points."""
    G = env.mod("grid").CubicGrid
    setup(env, natoms, rot)
    Z, X, h, ext = inputs(env, natoms)
    for k in range(natoms):
        for c in range(3):
            env.assume(env.and_(X[k, c] >= -env.frac(1, 10), X[k, c] <= env.frac(1, 10)))
    env.assume(env.and_(ext > env.frac(1, 10), ext <= env.frac(1, 5)))
    env.assume(h >= 1)
    g = G.from_molecule(Z, X, spacing=h, extension=ext, rotate=rotate)
    pts = g.points
    env.check(pts.shape[0] == len(g), "number of points")
    a = g.axes
    N = pts.shape[0]
    for i in range(3):
        for j in range(i + 1):
            env.eq(env.sum(a[i, c] * a[j, c] for c in range(3)), h * h if i == j else 0, f"orthogonal equal steps {i}{j}", tol=1e-9)
        pr = [env.sum(pts[q, c] * a[i, c] for c in range(3)) / h for q in range(N)]
        at = [env.sum(X[k, c] * a[i, c] for c in range(3)) / h for k in range(natoms)]
        for k in range(natoms):
            env.check(env.or_(*[pr[q] <= at[k] - ext + env.frac(1, 10 ** 9) for q in range(N)]), f"some point below atom {k} by the margin along axis {i}")
            env.check(env.or_(*[pr[q] >= at[k] + ext - env.frac(1, 10 ** 9) for q in range(N)]), f"some point above atom {k} by the margin along axis {i}")
        for q in range(N):
            env.check(env.or_(*[pr[q] <= at[k] + ext + 2 * h + env.frac(1, 10 ** 9) for k in range(natoms)]), f"point {q} not beyond the margin by two spacings along axis {i}")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for n in ((1, 2, 3, 4, 5, 6, 8, 10) if T else (1, 2, 3, 4, 8)):
        out.append(Job(encloses, dict(natoms=n, rotate=False), concrete=12))
    out.append(Job(defaults, {}, concrete=12))
    out.append(Job(built, dict(natoms=1, rotate=False), concrete=30))
    out.append(Job(built, dict(natoms=2, rotate=False), concrete=30))
    for rot in ("identity", "cycle", "swap", "q1", "q2", "x", "y", "z"):
        out.append(Job(encloses, dict(natoms=1, rotate=True, rot=rot), concrete=12))
        if T or rot not in "xyz":
            out.append(Job(encloses, dict(natoms=2, rotate=True, rot=rot), concrete=12))
        if rot in "xyz":
            out.append(Job(encloses, dict(natoms=2, rotate=True, rot=rot, charges=(1, 6)), concrete=12))
    for rot in ("identity", "cycle", "swap", "q1", "q2"):
        out.append(Job(encloses, dict(natoms=3, rotate=True, rot=rot, charges=(1, 6, 8)), concrete=12))
        if T:
            out.append(Job(encloses, dict(natoms=4, rotate=True, rot=rot, charges=(7, 1, 1, 16)), concrete=12))
        out.append(Job(principal, dict(natoms=2, rot=rot), concrete=12))
    for rot in ("identity", "cycle", "swap"):
        out.append(Job(principal, dict(natoms=3, rot=rot, charges=(1, 6, 8)), concrete=12))
    out.append(Job(built, dict(natoms=1, rotate=True, rot="q1"), concrete=30))
    return out
