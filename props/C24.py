"""C24: atomic density, core and valence parts, gradient and kinetic energy from any wave-function data."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["density.SlaterAtoms.__init__", "density.SlaterAtoms.phi_matrix", "density.SlaterAtoms.atomic_density", "density.SlaterAtoms.derivative_density",
             "density.SlaterAtoms.positive_definite_kinetic_energy", "density.SlaterAtoms.radial_slater_orbital", "density.SlaterAtoms.derivative_radial_slater_type_orbital"]
BOUNDS = {"wave function": "1 to 4 orbitals (5 in thorough) of s, p, d and f type, 1 to 2 (3) basis functions per type", "points": "1 to 2 (3), 60 (120) for two cases, any radii from zero up", "data": "any positive exponents, any coefficients, energies, occupations from zero up"}
ASSUMPTIONS = ["the wave-function file reader is a stand-in returning the data (the reader itself is C25)"]
L = {"S": 0, "P": 1, "D": 2, "F": 3}
CASES = [(["1S"], {"S": [1]}), (["1S", "2S"], {"S": [1, 2]}), (["1S", "2P"], {"S": [2], "P": [2]}), (["1S", "2S", "2P"], {"S": [1, 2], "P": [2, 3]}),
         (["4S", "3P", "3D"], {"S": [1], "P": [2], "D": [3, 4]}), (["6S", "5D", "4F"], {"S": [3], "D": [3], "F": [4, 4]}), (["2S", "2P", "3D", "4F"], {"S": [2], "P": [2], "D": [3], "F": [5]})]
MORE = [(["1S", "2S", "3S", "2P", "3P"], {"S": [1, 1, 2], "P": [2, 3]}), (["3S", "2P", "3P", "3D"], {"S": [1, 3, 2], "P": [4, 2, 2], "D": [3, 4]})]


def atom(env, case):
    orbitals, numbers = (CASES + MORE)[case]
    n = len(orbitals)
    col = lambda name, k, **o: env.reals(name, (k, 1), **o)
    data = dict(energy=env.frac(1), kinetic_energy=env.frac(2), potential_energy=env.frac(3), configuration="any", orbitals=list(orbitals),
                orbitals_occupation=col("n", n, lo=0), orbitals_energy=col("en", n), orbitals_cusp=col("cu", n),
                orbitals_basis={k: [f"{x}{k}" for x in v] for k, v in numbers.items()}, basis_numbers={k: env.np.array([[x] for x in v]) for k, v in numbers.items()},
                orbitals_exp={k: col("z" + k, len(v), lo=0, lo_strict=True) for k, v in numbers.items()},
                orbitals_coeff={o: col("c" + o, len(numbers[o[1]])) for o in orbitals})
    env.fresh_modules()
    asked = []

    def load(element, anion=False, cation=False):
        asked.append((element, bool(anion), bool(cation)))
        return data

    env.mod("_slater").load_slater_wfn = load
    env.mod("density").load_slater_wfn = load
    at = env.mod("density").SlaterAtoms("Xx", anion=False, cation=True)
    env.check(asked == [("Xx", False, True)], "the requested charge state is loaded")
    return at, data


def phi(env, at, data, k, r, deriv=False):
    """radial part of orbital k at r from the orbital routines."""
    o = data["orbitals"][k]
    f = at.derivative_radial_slater_type_orbital if deriv else at.radial_slater_orbital
    m = f(data["orbitals_exp"][o[1]], data["basis_numbers"][o[1]], env.vec(r))
    c = data["orbitals_coeff"][o]
    return env.sum(m[0, j] * c[j, 0] for j in range(c.shape[0]))


def saved(env, data):
    return {(k, j): (v[j], env.snapshot(v[j])) for k, v in data.items() if isinstance(v, dict) for j in v if not isinstance(v[j], list)} | \
        {k: (v, env.snapshot(v)) for k, v in data.items() if hasattr(v, "shape") and v.shape}


def untouched(env, old, label):
    for k, (v, s) in old.items():
        env.unchanged(v, s, f"{label} {k}")


def density(env, case, npts):
    at, data = atom(env, case)
    r = env.reals("r", npts, lo=0)
    old, sr = saved(env, data), env.snapshot(r)
    n = len(data["orbitals"])
    occ, en = data["orbitals_occupation"], data["orbitals_energy"]
    total = at.atomic_density(r)
    named = at.atomic_density(r, mode="total")
    val = at.atomic_density(r, mode="valence")
    core = at.atomic_density(r, mode="core")
    mat = at.phi_matrix(r)
    env.check(mat.shape == (npts, n) and total.shape == (npts,) and val.shape == (npts,) and core.shape == (npts,), "shapes")
    homo = env.max([en[k, 0] for k in range(n)])
    for i in range(npts):
        p = [phi(env, at, data, k, r[i]) for k in range(n)]
        for k in range(n):
            env.eq(mat[i, k], p[k], f"orbital {k} at point {i}")
        env.eq(total[i], env.sum(occ[k, 0] * p[k] * p[k] for k in range(n)) / (4 * env.pi), f"total density at point {i}")
        env.eq(named[i], total[i], f"total is the default {i}")
        w = [env.exp(-((en[k, 0] - homo) * (en[k, 0] - homo))) for k in range(n)]
        env.eq(val[i], env.sum(occ[k, 0] * w[k] * p[k] * p[k] for k in range(n)) / (4 * env.pi), f"valence density at point {i}")
        env.eq(core[i] + val[i], total[i], f"core plus valence at point {i}")
        for k in range(n):
            env.le(0, occ[k, 0] * (p[k] * p[k]), f"total not negative: part {k} at point {i}")
            env.le(0, occ[k, 0] * w[k] * (p[k] * p[k]), f"valence not negative: part {k} at point {i}")
    untouched(env, old, "unchanged")
    env.unchanged(r, sr, "points unchanged")
    env.check(env.raises(ValueError, at.atomic_density, r, mode="all"), "unknown mode refused")


def core_sign(env, case):
    """core is not negative: each weight 1 - exp(-x^2) is not."""
    at, data = atom(env, case)
    r = env.reals("r", 1, lo=0)
    n = len(data["orbitals"])
    core = at.atomic_density(r, mode="core")
    en = data["orbitals_energy"]
    homo = env.max([en[k, 0] for k in range(n)])
    terms = []
    for k in range(n):
        d = en[k, 0] - homo
        w = 1 - env.exp(-(d * d))
        env.le(0, w, f"weight {k}")
        env.fact(w >= 0)
        t = data["orbitals_occupation"][k, 0] * w
        p = phi(env, at, data, k, r[0])
        env.le(0, t * (p * p), f"part {k}")
        terms.append(t * p * p)
    env.eq(core[0], env.sum(terms) / (4 * env.pi), "core is the sum of the parts")


def gradient(env, case, npts):
    at, data = atom(env, case)
    r = env.reals("r", npts, lo=0)
    for i in range(npts):
        env.assume(r[i] > env.frac(1, 10 ** 10))
    old, sr = saved(env, data), env.snapshot(r)
    out = at.derivative_density(r)
    env.check(out.shape == (npts,), "one value per point")
    _, d = env.grad(lambda xs: at.atomic_density(env.vec(*xs)), [r[i] for i in range(npts)])
    for i in range(npts):
        env.eq(out[i], d[i, i], f"derivative at point {i}", tol=1e-5)
    untouched(env, old, "unchanged")
    env.unchanged(r, sr, "points unchanged")


def kinetic(env, case, npts):
    at, data = atom(env, case)
    r = env.reals("r", npts, lo=0)
    for i in range(npts):
        env.assume(r[i] > env.frac(1, 10 ** 10))
    old, sr = saved(env, data), env.snapshot(r)
    out = at.positive_definite_kinetic_energy(r)
    env.check(out.shape == (npts,), "one value per point")
    occ, n = data["orbitals_occupation"], len(data["orbitals"])
    for i in range(npts):
        parts = []
        for k in range(n):
            l = L[data["orbitals"][k][1]]
            _, d = env.grad(lambda xs: env.vec(phi(env, at, data, k, xs[0])), [r[i]])
            p = phi(env, at, data, k, r[i])
            a, b = occ[k, 0] * (d[0, 0] * d[0, 0]), occ[k, 0] * (l * (l + 1)) * ((p * p) / (r[i] * r[i]))
            if len(data["basis_numbers"][data["orbitals"][k][1]]) < 3:
                env.le(0, a, f"not negative: radial part {k} at point {i}")
                env.le(0, b, f"not negative: angular part {k} at point {i}")
            parts.append(a + b)
        env.eq(out[i], env.sum(parts) / (8 * env.pi), f"kinetic energy at point {i}", tol=1e-5)
    untouched(env, old, "unchanged")
    env.unchanged(r, sr, "points unchanged")


def rewritten(env, case):
    """the caller overwrites its array of radii between calls; earlier results stay what they were."""
    at, data = atom(env, case)
    r = env.reals("r", 2, lo=1e-3)
    other = env.reals("q", 2, lo=1e-3)
    names = (("atomic_density", ()), ("atomic_density", ("valence",)), ("atomic_density", ("core",)), ("derivative_density", ()), ("positive_definite_kinetic_energy", ()), ("phi_matrix", ()))
    first = [getattr(at, k)(r, *a) for k, a in names]
    overwrite(env, r, "r1", lo=1e-3)
    second = [getattr(at, k)(r, *a) for k, a in names]
    third = [getattr(at, k)(other, *a) for k, a in names]
    # a model of its own for every reference value
    for j, (k, a) in enumerate(names):
        fresh = env.mod("density").SlaterAtoms("Xx")
        for tag, got, pts in (("again", second[j], r), ("elsewhere", third[j], other)):
            env.eq(got, getattr(fresh, k)(env.vec(*list(pts)), *a), f"{k} {a} {tag}")
    overwrite(env, r, "r2", lo=1e-3)
    fresh = env.mod("density").SlaterAtoms("Xx")
    for j, (k, a) in enumerate(names):
        getattr(at, k)(r, *a)
        env.eq(third[j], getattr(fresh, k)(env.vec(*list(other)), *a), f"{k} {a} after later calls")


def origin(env, case):
    """finite and not negative at the origin too."""
    at, data = atom(env, case)
    x = env.pos("r")
    env.assume(x > env.frac(1, 10 ** 10))
    pts = env.vec(env.frac(0), x)
    for name in ("positive_definite_kinetic_energy", "derivative_density"):
        f = getattr(at, name)
        out = f(pts)
        alone = f(env.vec(x))
        env.eq(out[1], alone[0], f"{name} elsewhere is not affected by the origin")
        env.eq(out[0], 0, f"{name} at the origin")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for case in range(len(CASES) + (len(MORE) if T else 0)):
        for npts in (1, 2) + ((3,) if T else ()):
            out.append(Job(density, dict(case=case, npts=npts), concrete=6))
            out.append(Job(gradient, dict(case=case, npts=npts), concrete=6))
            out.append(Job(kinetic, dict(case=case, npts=npts), concrete=6))
        out.append(Job(core_sign, dict(case=case), concrete=6))
        out.append(Job(origin, dict(case=case), concrete=6))
    for case in (0, 2):
        for f in (density, gradient, kinetic):
            out.append(Job(f, dict(case=case, npts=120 if T else 60), concrete=4))
    for case in (0, 2, 3):
        out.append(Job(rewritten, dict(case=case), concrete=4))
    return out
