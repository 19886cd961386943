"""C23: Slater-type orbitals."""
import math
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["density.SlaterAtoms.radial_slater_orbital", "density.SlaterAtoms.derivative_radial_slater_type_orbital"]
BOUNDS = {"principal number": "1 to 7 (9 in thorough)", "orbitals": "1 to 3 (4), any mixture of principal numbers from a fixed set, and one instance of 12", "points": "1 to 3 (4), and one instance of 300, any radii from zero up, in any order", "exponents": "any positive reals"}
ASSUMPTIONS = ["the radial integral of r^(2n) exp(-2 zeta r) is (2n)!/(2 zeta)^(2n+1)"]


def orbital(env, n, z, r):
    """documented orbital; 0^0 = 1."""
    rad = env.prod([r] * (n - 1)) if n > 1 else 1
    return env.pow(2 * z, n) * env.sqrt(2 * z / math.factorial(2 * n)) * rad * env.exp(-(z * r))


def setup(env, numbers, npts, origin):
    m = len(numbers)
    z = env.posreals("z", (m, 1))
    num = env.np.array([[k] for k in numbers])
    r = env.reals("r", npts, lo=0, lo_strict=origin == "none")
    return env.mod("density").SlaterAtoms, z, num, r


def value(env, numbers, npts):
    cls, z, num, r = setup(env, numbers, npts, "any")
    sz, sr = env.snapshot(z), env.snapshot(r)
    out = cls.radial_slater_orbital(z, num, r)
    m = len(numbers)
    env.check(out.shape == (npts, m), "one row per point and one column per orbital")
    if out.shape != (npts, m):
        return
    for i in range(npts):
        for k in range(m):
            env.eq(out[i, k], orbital(env, numbers[k], z[k, 0], r[i]), f"orbital {k} at point {i}")
    again = cls.radial_slater_orbital(z, num, r)
    env.eq(again, out, "same again")
    env.unchanged(z, sz, "exponents unchanged")
    env.unchanged(r, sr, "points unchanged")
    env.check([int(x) for x in num[:, 0]] == list(numbers), "numbers unchanged")


def norm(env, n):
    """the squared radial integral: R(r)^2 = K r^(2n-2) exp(-2 z r) with K (2n)!/(2 z)^(2n+1) = 1."""
    cls, z, num, r = setup(env, [n], 1, "none")
    out = cls.radial_slater_orbital(z, num, r)[0, 0]
    k = env.pow(2 * z[0, 0], 2 * n + 1) / math.factorial(2 * n)
    env.eq(out * out, k * env.prod([r[0]] * (2 * n - 2)) * env.exp(-(2 * z[0, 0] * r[0])), "square integrates to one over r^2 dr")
    env.check(out > 0, "positive")


def derivative(env, numbers, npts):
    cls, z, num, r = setup(env, numbers, npts, "none")
    for i in range(npts):
        env.assume(r[i] > env.frac(1, 10 ** 10))
    m = len(numbers)
    sz, sr = env.snapshot(z), env.snapshot(r)
    out = cls.derivative_radial_slater_type_orbital(z, num, r)
    env.check(out.shape == (npts, m), "one row per point and one column per orbital")
    if out.shape != (npts, m):
        return
    _, d = env.grad(lambda xs: cls.radial_slater_orbital(z, num, env.vec(*xs)), [r[i] for i in range(npts)])
    for i in range(npts):
        for k in range(m):
            env.eq(out[i, k], d[i, k, i], f"derivative of orbital {k} at point {i}", tol=1e-5)
    env.unchanged(z, sz, "exponents unchanged")
    env.unchanged(r, sr, "points unchanged")


def origin(env, numbers, where, npts):
    """zero at the origin, wherever it stands among the points, the others unaffected."""
    cls, z, num, r = setup(env, numbers, npts, "none")
    env.assume(r > env.frac(1, 10 ** 10))
    pts = env.vec(*[env.frac(0) if i in where else r[i] for i in range(npts)])
    out = cls.derivative_radial_slater_type_orbital(z, num, pts)
    clean = cls.derivative_radial_slater_type_orbital(z, num, r)
    for i in range(npts):
        for k in range(len(numbers)):
            env.eq(out[i, k], 0 if i in where else clean[i, k], f"orbital {k} at point {i}")


def rewritten(env, numbers, npts):
    """radii, then exponents, overwritten in place between calls; earlier results stay what they were."""
    cls, z, num, r = setup(env, numbers, npts, "none")
    for i in range(npts):
        env.assume(r[i] > env.frac(1, 10 ** 10))
    seen = []
    for t in range(3):
        if t == 1:
            overwrite(env, r, "r1", lo=1e-3)
        elif t == 2:
            overwrite(env, z, "z1", lo=0, lo_strict=True)
        rr, zz = env.vec(*list(r)), env.arr([[z[k, 0]] for k in range(len(numbers))])
        d = cls.derivative_radial_slater_type_orbital(z, num, r)
        v = cls.radial_slater_orbital(z, num, r)
        want = [[orbital(env, numbers[k], z[k, 0], r[i]) for k in range(len(numbers))] for i in range(npts)]
        slope = [[((numbers[k] - 1) / r[i] - z[k, 0]) * want[i][k] for k in range(len(numbers))] for i in range(npts)]
        seen.append((v, d, want, slope))
    for t, (v, d, want, slope) in enumerate(seen):
        for i in range(npts):
            for k in range(len(numbers)):
                env.eq(v[i, k], want[i][k], f"orbital {k} at point {i} after {t} overwrites")
                env.eq(d[i, k], slope[i][k], f"derivative of orbital {k} at point {i} after {t} overwrites")


def jobs(tier):
    T = tier == "thorough"
    out = []
    top = 10 if T else 8
    for n in range(1, top):
        out.append(Job(value, dict(numbers=[n], npts=2), concrete=6))
        out.append(Job(norm, dict(n=n), concrete=6))
        out.append(Job(derivative, dict(numbers=[n], npts=2), concrete=6))
        out.append(Job(origin, dict(numbers=[n], where=[0], npts=1), concrete=4))
    for numbers in [[1, 2], [2, 1], [3, 1, 2], [1, 1, 4], [2, 2], [6, 3, 5]] + ([[1, 3, 2, 7], [4, 4, 4, 1]] if T else []):
        for npts in (1, 2, 3) + ((4,) if T else ()):
            out.append(Job(value, dict(numbers=numbers, npts=npts), concrete=4))
            out.append(Job(derivative, dict(numbers=numbers, npts=npts), concrete=4))
        out.append(Job(origin, dict(numbers=numbers, where=[1], npts=3), concrete=4))
        out.append(Job(origin, dict(numbers=numbers, where=[0, 2], npts=3), concrete=4))
    for numbers, npts in (([2, 1], 300), ([1, 2, 3, 4, 5, 6, 7, 1, 1, 2, 2, 3], 1)):
        out.append(Job(value, dict(numbers=numbers, npts=npts), concrete=4))
        out.append(Job(derivative, dict(numbers=numbers, npts=npts), concrete=4))
    for numbers in ([1], [2, 1], [3, 1, 2]):
        out.append(Job(rewritten, dict(numbers=numbers, npts=2), concrete=4))
    return out
