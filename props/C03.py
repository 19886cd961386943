"""C03: the molecular model is the sum of its atoms."""
from vf.engine import Job
from props.common import points, overwrite

FUNCTIONS = ["model.MolecularGaussianDensity.__init__", "model.MolecularGaussianDensity.evaluate",
             "model.MolecularGaussianDensity.assign_basis_to_center", "model.MolecularGaussianDensity.prefactor/radii/nbasis/natoms"]
BOUNDS = {"centres": "1-3 (quick), up to 5 (thorough), and one instance of 7 centres", "functions per centre": "0-2 s and 0-2 p (3 s, 2 p among 7 centres)", "points": "1-3 and one instance of 300", "dimensions": "1-3",
          "ownership": "every numbers-of-functions table with entries 0-2 on 2 centres (quick) and 3 centres (thorough), every index"}
ASSUMPTIONS = ["every centre owns at least one function (a centre without any is refused by the atomic model)",
               "exponents are non-negative when normalisation is on"]


def build(env, basis):
    return env.mod("model").np.array(basis) if not env.symbolic else env.np.array(basis)


def total(env, npts, dim, basis, normalize):
    m = env.mod("model")
    pts = points(env, npts, dim)
    M = len(basis)
    cols = max(dim, 1)
    coords = env.reals("m", (M, cols))
    n = sum(a + b for a, b in basis)
    c = env.reals("c", n)
    e = env.reals("e", n, lo=0) if normalize else env.reals("e", n)
    obj = m.MolecularGaussianDensity(pts, coords, build(env, basis), normalize=normalize)
    atoms = [m.AtomicGaussianDensity(pts, center=coords[k], num_s=s, num_p=p, normalize=normalize) for k, (s, p) in enumerate(basis)]
    sc, se, sm, sp = env.snapshot(c), env.snapshot(e), env.snapshot(coords), env.snapshot(pts)
    v = obj.evaluate(c, e)
    v2, dv = obj.evaluate(c, e, deriv=True)
    v3 = obj.evaluate(c, e)
    env.check(dv.shape == (npts, 2 * n), "derivative shape")
    off = 0
    ref = None
    for k, (s, p) in enumerate(basis):
        nb = s + p
        g, dg = atoms[k].evaluate(c[off:off + nb], e[off:off + nb], True)
        ref = g if ref is None else ref + g
        env.eq(dv[:, off:off + nb], dg[:, :nb], f"coefficient columns of atom {k}")
        env.eq(dv[:, n + off:n + off + nb], dg[:, nb:], f"exponent columns of atom {k}")
        off += nb
    env.eq(v, ref, "value")
    env.eq(v2, ref, "value with derivatives")
    env.eq(v3, ref, "value evaluated again")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")
    env.unchanged(coords, sm, "coordinates unchanged")
    env.unchanged(pts, sp, "points unchanged")
    # per-centre reports
    env.check(obj.nbasis == n and obj.natoms == M, "numbers of functions and centres")
    env.eq(obj.prefactor, env.vec(*[w for s, p in basis for w in [1.5] * s + [2.5] * p]), "prefactor")
    for k in range(M):
        for i in range(npts):
            d2 = env.sum((pts[i, j] - coords[k, j]) * (pts[i, j] - coords[k, j]) for j in range(cols)) if dim else (pts[i] - coords[k, 0]) * (pts[i] - coords[k, 0])
            r = obj.radii[k][i]
            env.eq(r * r, d2, f"squared distance of point {i} from centre {k}")
            env.le(0, r, f"distance of point {i} from centre {k} is not negative")
    env.check(len(obj.radii) == M, "one row of distances per centre")


def rewritten(env, npts, dim, basis, normalize, which):
    """the caller overwrites its arrays between evaluations; another molecule is used in between."""
    m = env.mod("model")
    pts = points(env, npts, dim)
    M, cols = len(basis), max(dim, 1)
    coords = env.reals("m", (M, cols))
    n = sum(a + b for a, b in basis)
    c = env.reals("c", n)
    e = env.reals("e", n, lo=0) if normalize else env.reals("e", n)
    obj = m.MolecularGaussianDensity(pts, coords, build(env, basis), normalize=normalize)
    other = m.MolecularGaussianDensity(pts, env.reals("o", (M, cols)), build(env, basis[::-1]), normalize=normalize)
    seen = []
    for t in range(2):
        if t and "c" in which:
            overwrite(env, c, "c1")
        if t and "e" in which:
            overwrite(env, e, "e1", **(dict(lo=0) if normalize else {}))
        v, dv = obj.evaluate(c, e, True)
        plain = obj.evaluate(c, e)
        other.evaluate(c, e)
        off, ref = 0, None
        for k, (s, p) in enumerate(basis):
            g, dg = m.AtomicGaussianDensity(pts, center=coords[k], num_s=s, num_p=p, normalize=normalize).evaluate(
                env.vec(*[c[i] for i in range(off, off + s + p)]), env.vec(*[e[i] for i in range(off, off + s + p)]), True)
            ref = g if ref is None else ref + g
            env.eq(dv[:, off:off + s + p], dg[:, :s + p], f"coefficient columns of atom {k} after {t} overwrites")
            env.eq(dv[:, n + off:n + off + s + p], dg[:, s + p:], f"exponent columns of atom {k} after {t} overwrites")
            off += s + p
        env.eq(v, ref, f"value with derivatives after {t} overwrites")
        env.eq(plain, ref, f"value after {t} overwrites")
        seen.append((v, plain, ref))
    env.eq(seen[0][0], seen[0][2], "first value after the later evaluations")
    env.eq(seen[0][1], seen[0][2], "first plain value after the later evaluations")


def owner(env, M, top):
    m = env.mod("model")
    basis = []
    for k in range(M):
        opts = [(a, b) for a in range(top + 1) for b in range(top + 1) if a + b > 0]
        basis.append(env.choice(f"b{k}", opts))
    n = sum(a + b for a, b in basis)
    obj = m.MolecularGaussianDensity(env.reals("x", (1, 1)), env.reals("m", (M, 1)), build(env, basis))
    own = [k for k, (a, b) in enumerate(basis) for _ in range(a + b)]
    i = env.index("i", n)
    env.check(obj.assign_basis_to_center(i) == own[i], "owner of the basis function")
    env.check(env.raises(ValueError, obj.assign_basis_to_center, n), "first index beyond the last is refused")
    env.check(env.raises(ValueError, obj.assign_basis_to_center, n + env.index("beyond", 3)), "later indices are refused")
    env.eq(obj.prefactor, env.vec(*[w for s, p in basis for w in [1.5] * s + [2.5] * p]), "prefactor")
    env.check(obj.nbasis == n, "number of functions")


def jobs(tier):
    T = tier == "thorough"
    out = []
    tables = [[(1, 0)], [(2, 1), (1, 2)], [(0, 2), (1, 0)], [(1, 1), (2, 0), (0, 1)]]
    if T:
        tables += [[(2, 2), (1, 1), (3, 0), (0, 3)], [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2)]]
    for basis in tables:
        for norm in (False, True):
            for dim in ((0, 1, 2, 3) if T else (1, 3) if len(basis) > 1 else (0,)):
                out.append(Job(total, dict(npts=3 if T else 2, dim=dim, basis=basis, normalize=norm), concrete=4))
    for norm in (False, True):
        out.append(Job(total, dict(npts=1, dim=3, basis=[(1, 1), (0, 1), (3, 2), (1, 0), (0, 2), (2, 1), (1, 1)], normalize=norm), concrete=2))
        out.append(Job(total, dict(npts=300, dim=3, basis=[(1, 0), (0, 1)], normalize=norm), concrete=2))
        for which in ("c", "e", "ce"):
            out.append(Job(rewritten, dict(npts=2, dim=1, basis=[(1, 1), (2, 0)] if which != "ce" else [(0, 1), (1, 0), (1, 0)], normalize=norm, which=which), concrete=4))
    out.append(Job(owner, dict(M=2, top=2), max_paths=4000, concrete=40))
    out.append(Job(owner, dict(M=1, top=3), concrete=10))
    if T:
        out.append(Job(owner, dict(M=3, top=2), max_paths=20000, concrete=40))
    return out
