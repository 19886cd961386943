"""C32: objects are independent of each other, and results belong to the caller."""
import io

from vf.engine import Job
from props import C25, C26
from props.C24 import atom, CASES
from props.common import QuadGrid, atomic_value, basis_at, integral, r2_at
from props.greedy_common import build as greedy, key_of

FUNCTIONS = ["model.AtomicGaussianDensity.*", "model.MolecularGaussianDensity.*", "measure.*.evaluate", "grid.*", "fit.ScipyFit.func/goodness_of_fit/const_norm", "fit.KLDivergenceFPI.run",
             "density.SlaterAtoms.*", "_slater.load_slater_wfn", "parse_ugbs.get_ugbs_exponents", "greedy.get_next_choices/get_two_next_choices/pick_two_lose_one/remove_redundancies", "greedy.GreedyStrategy.run"]
BOUNDS = {"objects": "two of each kind, of equal sizes, with any different data", "calls": "each object twice, the other's calls in between, the first results overwritten before the second call",
          "sizes": "1 to 2 points, 1 to 3 functions, 2 centres"}
ASSUMPTIONS = ["the numbers are those of the other properties (densities and exponents positive, models unmasked)", "only computed results are overwritten: properties that hand out an object's own data are not"]


def wreck(x):
    """what a caller may do with a result: overwrite all of it."""
    if isinstance(x, dict):
        for k in list(x):
            wreck(x[k])
        x.clear()
    elif isinstance(x, list):
        for y in x:
            wreck(y)
        del x[:]
    elif isinstance(x, tuple):
        for y in x:
            wreck(y)
    elif hasattr(x, "shape") and x.shape and getattr(getattr(x, "flags", None), "writeable", True):
        x[...] = 777


def models(env, dim, ns, np_, normalize, molecular):
    M = env.mod("model")
    m = ns + np_
    shape = (1,) if dim == 0 else (1, dim)
    cols = max(dim, 1)
    pts = [env.reals(k, shape) for k in "xy"]
    pars = [(env.reals(f"c{k}", m), env.posreals(f"e{k}", m)) for k in (0, 1)]
    if molecular:
        basis = env.np.array([[ns, 0], [0, np_]])
        cen = [env.reals(f"m{k}", (2, cols)) for k in (0, 1)]
        mods = [M.MolecularGaussianDensity(pts[k], cen[k], basis, normalize=normalize) for k in (0, 1)]
        kinds = [[(cen[k][0], "s")] * ns + [(cen[k][1], "p")] * np_ for k in (0, 1)]
    else:
        cen = [env.reals("m0", cols), env.reals("m1", cols)]
        mods = [M.AtomicGaussianDensity(pts[k], center=cen[k], num_s=ns, num_p=np_, normalize=normalize) for k in (0, 1)]
        kinds = [[(cen[k], "s")] * ns + [(cen[k], "p")] * np_ for k in (0, 1)]

    def value(k, j):
        c, e = pars[j]
        return env.sum(c[i] * basis_at(env, r2_at(env, pts[k], 0, kinds[k][i][0]), e[i], kinds[k][i][1], normalize) for i in range(m))

    def columns(k, j):
        c, e = pars[j]
        return [basis_at(env, r2_at(env, pts[k], 0, kinds[k][i][0]), e[i], kinds[k][i][1], normalize) for i in range(m)]

    for k, j, d in ((0, 0, False), (1, 0, True), (0, 0, True), (1, 1, False), (0, 1, True), (1, 0, False), (0, 0, False)):
        out = mods[k].evaluate(*pars[j], deriv=d)
        g = out[0] if d else out
        env.eq(g[0], value(k, j), f"value of model {k}, parameters {j}")
        if d:
            b = columns(k, j)
            for i in range(m):
                # coefficient columns; for molecules they stand at the parameters' positions
                env.eq(out[1][0, i], b[i], f"coefficient column {i} of model {k}, parameters {j}")
        wreck(out)
    for k in (0, 1, 0):
        r = mods[k].radii
        if not molecular:
            env.eq(r[0] * r[0], r2_at(env, pts[k], 0, cen[k]), "distances")


def measures(env):
    ME = env.mod("measure")
    f = [env.posreals("f", 2), env.posreals("h", 2)]
    g = [env.posreals("g", 2), env.posreals("k", 2)]
    pens = [env.real("pen0"), env.real("pen1")]
    al = [env.real("al0", lo=1, lo_strict=True), env.real("al1", lo=1, lo_strict=True)]
    for a in al:
        env.assume(env.abs(a - 1) > env.frac(1, 1000))
    kl = [ME.KLDivergence(mask_value=0., negative_val=pens[k]) for k in (0, 1)]
    ts = [ME.TsallisDivergence(alpha=al[k], mask_value=0.) for k in (0, 1)]
    ls = [ME.SquaredDifference(), ME.SquaredDifference()]
    for k, j, d in ((0, 0, False), (1, 1, True), (1, 0, False), (0, 1, True), (0, 0, True), (1, 1, False)):
        for name, m in (("KL", kl[k]), ("Tsallis", ts[k]), ("squared", ls[k])):
            out = m.evaluate(f[j], g[j], deriv=d)
            v = out[0] if d else out
            for i in range(2):
                q = f[j][i] / g[j][i]
                want = {"KL": f[j][i] * env.log(q), "Tsallis": f[j][i] * (env.pow(q, al[k] - 1) - 1) / (al[k] - 1), "squared": (f[j][i] - g[j][i]) * (f[j][i] - g[j][i])}[name]
                env.eq(v[i], want, f"{name} {k} of data {j}")
                if d:
                    env.eq(out[1][i], {"KL": -q, "Tsallis": -env.pow(q, al[k]), "squared": -2 * (f[j][i] - g[j][i])}[name], f"{name} {k} derivative of data {j}")
            wreck(out)
    neg = env.vec(env.frac(-1), env.frac(1))
    for k in (0, 1, 0):
        out = kl[k].evaluate(f[0], neg)
        env.eq(out, env.vec(pens[k], pens[k]), "penalty")
        wreck(out)


def grids(env):
    G = env.mod("grid")
    radial = []
    for k in (0, 1):
        a, b = env.pos(f"a{k}"), env.pos(f"b{k}")
        radial.append((G.ClenshawRadialGrid(1 + k, 0, 0, extra_pts=[a, a + b], dtype=float), [a, a + b]))
    uni = [(G.UniformRadialGrid(3, env.frac(k), env.real(f"hi{k}", lo=2), dtype=float)) for k in (0, 1)]
    clen = [G.ClenshawRadialGrid(z, 2, 2, dtype=float) for z in (1, 3)]
    f = [env.reals("f", 2), env.reals("g", 2)]
    for k, j in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 0)):
        g, r = radial[k]
        env.eq(g.points, env.vec(*r), "points")
        env.eq(g.integrate(f[j]), (r[1] - r[0]) * (f[j][0] + f[j][1]) / 2, f"integral on grid {k} of data {j}")
    for k in (0, 1):
        p = uni[k].points
        env.eq(p[2] - p[1], p[1] - p[0], "uniform steps")
        env.eq(p[0], env.frac(k), "first point")
    for k in (0, 1):
        env.eq(clen[k].points[1], (1 - env.cos(env.pi / 4)) / (2 * (1, 3)[k]), "core point")
    cub = []
    for k in (0, 1):
        o, ax = env.reals(f"o{k}", 3), env.reals(f"ax{k}", (3, 3))
        cub.append((G.CubicGrid(o, ax, (1, 2, 1)), o, ax))
    for k, j in ((0, 0), (1, 0), (0, 1), (0, 0)):
        g, o, ax = cub[k]
        d = ax[0, 0] * (ax[1, 1] * ax[2, 2] - ax[1, 2] * ax[2, 1]) - ax[0, 1] * (ax[1, 0] * ax[2, 2] - ax[1, 2] * ax[2, 0]) + ax[0, 2] * (ax[1, 0] * ax[2, 1] - ax[1, 1] * ax[2, 0])
        for i in range(3):
            env.eq(g.points[1, i], o[i] + ax[1, i], "lattice point")
        env.eq(g.integrate(f[j]), env.abs(d) * (f[j][0] + f[j][1]), f"integral on cubic grid {k} of data {j}")


def fits(env, cls, shared):
    """two fits, on one model and grid or on their own."""
    F, M, ME = env.mod("fit"), env.mod("model"), env.mod("measure")
    grids, mods = [], []
    for k in (0, 1):
        if k and shared:
            grids.append(grids[0])
            mods.append(mods[0])
        else:
            x = env.reals(f"x{k}", 2, lo=0)
            grids.append(QuadGrid(x, env.posreals(f"w{k}", 2), env))
            mods.append(M.AtomicGaussianDensity(x, num_s=1, num_p=1, normalize=True))
    f = [env.posreals(f"f{k}", 2) for k in (0, 1)]
    N = [env.pos(f"N{k}") for k in (0, 1)]
    wt = [env.reals(f"wt{k}", 2) for k in (0, 1)]
    pars = [(env.posreals(f"c{k}", 2), env.posreals(f"e{k}", 2)) for k in (0, 1)]

    def model(k, j):
        g = atomic_value(env, grids[k].points, [0], 1, 1, pars[j][0], pars[j][1], True)
        for i in range(2):
            env.assume(g[i] > 0)
        return g

    vw = [[grids[k].w[i] for i in range(2)] for k in (0, 1)]
    if cls == "scipy":
        ms = ME.SquaredDifference()
        obj = [F.ScipyFit(grids[k], f[k], mods[k], measure=ms, weights=wt[k], integral_dens=N[k], mask_value=0.) for k in (0, 1)]
        for k, j in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 0)):
            x = env.np.hstack(pars[j])
            g = model(k, j)
            out = obj[k].func(x)
            env.eq(out[0], integral(env, vw[k], [wt[k][i] * (f[k][i] - g[i]) * (f[k][i] - g[i]) for i in range(2)]), f"objective of fit {k} at {j}")
            d = obj[k].const_norm(x)
            env.eq(d * d, (N[k] - integral(env, vw[k], g)) * (N[k] - integral(env, vw[k], g)), f"constraint of fit {k} at {j}")
            wreck(out)
    else:
        obj = [F.KLDivergenceFPI(grids[k], f[k], mods[k], integral_dens=N[k]) for k in (0, 1)]
    for k, j in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 0)):
        g = model(k, j)
        out = obj[k].goodness_of_fit(*pars[j])
        env.eq(out[0], integral(env, vw[k], g), f"integral of fit {k} at {j}")
        env.eq(out[3], integral(env, vw[k], [(f[k][i] - g[i]) * (f[k][i] - g[i]) for i in range(2)]), f"least squares of fit {k} at {j}")
        env.eq(out[4], integral(env, vw[k], [f[k][i] * env.log(f[k][i] / g[i]) for i in range(2)]), f"divergence of fit {k} at {j}")
        wreck(out)
    if cls == "fpi":
        for o in obj:
            o.goodness_of_fit = lambda *a: [0., 0., 0., 0., 0.]
        for k, j in ((0, 0), (1, 0), (0, 1), (0, 0)):
            c, e = pars[j]
            g = model(k, j)
            r2 = [grids[k].points[i] * grids[k].points[i] for i in range(2)]
            b = [[basis_at(env, r2[i], e[n], "sp"[n], True) for i in range(2)] for n in range(2)]
            a1 = [integral(env, vw[k], [f[k][i] / g[i] * b[n][i] for i in range(2)]) for n in range(2)]
            a2 = [integral(env, vw[k], [f[k][i] / g[i] * b[n][i] * r2[i] for i in range(2)]) for n in range(2)]
            for n in range(2):
                env.assume(a2[n] != 0)
            tot = integral(env, vw[k], f[k])
            r = obj[k].run(c, e, opt_coeffs=True, opt_expons=True, maxiter=1, c_threshold=-1., e_threshold=-1.)
            for n in range(2):
                env.eq(r["coeffs"][n], c[n] * a1[n] * N[k] / tot, f"coefficient {n} of fit {k} from {j}")
                env.eq(r["exps"][n], env.frac(3 + 2 * n, 2) * a1[n] / a2[n], f"exponent {n} of fit {k} from {j}")
            wreck(r)


def slater(env, n):
    S = env.mod("density").SlaterAtoms
    z = [env.posreals("z", n), env.posreals("u", n)]
    nums = ([1, 2, 3][:n], [4, 2, 1][:n])
    r = [env.posreals("r", 1), env.posreals("s", 1)]
    env.assume(r[0][0] > env.frac(1, 100))
    env.assume(r[1][0] > env.frac(1, 100))
    fact = {1: 2, 2: 24, 3: 720, 4: 40320}
    for k, j, d in ((0, 0, False), (1, 0, False), (0, 1, True), (1, 1, False), (0, 0, True), (0, 0, False)):
        a = env.np.reshape(z[k], (n, 1))
        q = env.np.array([[x] for x in nums[k]])
        out = (S.derivative_radial_slater_type_orbital if d else S.radial_slater_orbital)(a, q, r[j])
        for i in range(n):
            m, x, t = nums[k][i], z[k][i], r[j][0]
            v = env.pow(2 * x, m) * env.sqrt(2 * x / fact[m]) * env.pow(t, m - 1) * env.exp(-(x * t))
            env.eq(out[0, i], v * ((m - 1) / t - x) if d else v, f"orbital {i} of set {k} at {j}")
        wreck(out)


def atoms(env, case):
    """two atoms with the same shells: every density from its own data."""
    orbitals, numbers = CASES[case]
    n = len(orbitals)
    env.fresh_modules()
    datas = []
    for t in "ab":
        col = lambda name, k, **o: env.reals(t + name, (k, 1), **o)
        datas.append(dict(energy=env.frac(1), kinetic_energy=env.frac(2), potential_energy=env.frac(3), configuration="any", orbitals=list(orbitals),
                          orbitals_occupation=col("n", n, lo=0), orbitals_energy=col("en", n), orbitals_cusp=col("cu", n),
                          orbitals_basis={k: [f"{x}{k}" for x in v] for k, v in numbers.items()}, basis_numbers={k: env.np.array([[x] for x in v]) for k, v in numbers.items()},
                          orbitals_exp={k: col("z" + k, len(v), lo=0, lo_strict=True) for k, v in numbers.items()},
                          orbitals_coeff={o: col("c" + o, len(numbers[o[1]])) for o in orbitals}))

    def load(element, anion=False, cation=False):
        return datas[0 if element.lower() == "aa" else 1]

    env.mod("_slater").load_slater_wfn = load
    env.mod("density").load_slater_wfn = load
    D = env.mod("density")
    at = [D.SlaterAtoms("Aa"), D.SlaterAtoms("Bb")]
    r = env.posreals("r", 1)
    env.assume(r[0] > env.frac(1, 100))

    def phi(k, i, deriv):
        o = orbitals[i]
        fn = D.SlaterAtoms.derivative_radial_slater_type_orbital if deriv else D.SlaterAtoms.radial_slater_orbital
        m = fn(datas[k]["orbitals_exp"][o[1]], datas[k]["basis_numbers"][o[1]], r)
        c = datas[k]["orbitals_coeff"][o]
        return env.sum(m[0, j] * c[j, 0] for j in range(c.shape[0]))

    for k, what in ((0, "t"), (1, "t"), (0, "d"), (1, "k"), (0, "v"), (1, "v"), (1, "d"), (0, "k"), (0, "t"), (1, "t")):
        occ, en = datas[k]["orbitals_occupation"], datas[k]["orbitals_energy"]
        ph = [phi(k, i, False) for i in range(n)]
        if what == "t":
            out = at[k].atomic_density(r)
            want = env.sum(occ[i, 0] * ph[i] * ph[i] for i in range(n)) / (4 * env.pi)
        elif what == "v":
            out = at[k].atomic_density(r, mode="valence")
            homo = env.max([en[i, 0] for i in range(n)])
            want = env.sum(occ[i, 0] * env.exp(-((en[i, 0] - homo) * (en[i, 0] - homo))) * ph[i] * ph[i] for i in range(n)) / (4 * env.pi)
        elif what == "d":
            out = at[k].derivative_density(r)
            want = env.sum(2 * occ[i, 0] * ph[i] * phi(k, i, True) for i in range(n)) / (4 * env.pi)
        else:
            out = at[k].positive_definite_kinetic_energy(r)
            l = {"S": 0, "P": 1, "D": 2, "F": 3}
            want = env.sum(occ[i, 0] * (phi(k, i, True) * phi(k, i, True) + l[orbitals[i][1]] * (l[orbitals[i][1]] + 1) * ph[i] * ph[i] / (r[0] * r[0])) for i in range(n)) / (8 * env.pi)
        env.eq(out[0], want, f"{what} of atom {k}")
        wreck(out)


def readers(env):
    env.fresh_modules()
    w = C25.Writer(env)
    files, want = {}, {}
    for t, name, sub in (("a", "be", [("S", [1, 2])]), ("b", "b", [("S", [2, 1]), ("P", [2])])):
        w.prefix = t
        conf, full, occ = C25.configuration(env, "plain", ["1S", "2S"] + (["2P=1"] if name == "b" else []), ())
        files[f"/data/neutral/{name}.slater"], want[name] = C25.build(env, w, name.upper(), conf, occ, sub, False)
        want[name]["occ"] = occ
    w.prefix = ""

    def fake(path, mode="r", *a, **k):
        for p, text in files.items():
            if str(path).replace("\\", "/").endswith(p):
                return io.StringIO(text)
        raise FileNotFoundError(path)
    env.hook("open", fake)
    load = env.mod("_slater").load_slater_wfn
    for name in ("be", "b", "be", "b"):
        d, x = load(name), want[name]
        env.eq(d["energy"], x["energy"], name + " energy")
        env.check(list(d["orbitals"]) == x["orbitals"], name + " orbitals")
        env.check([int(v) for v in d["orbitals_occupation"].ravel()] == [x["occ"][o] for o in x["orbitals"]], name + " occupations")
        env.eq(d["orbitals_energy"], env.np.reshape(env.vec(*x["orbitals_energy"]), (-1, 1)), name + " orbital energies")
        env.check({k: [int(v) for v in a.ravel()] for k, a in d["basis_numbers"].items()} == x["basis_numbers"], name + " basis numbers")
        for k, v in x["orbitals_exp"].items():
            env.eq(d["orbitals_exp"][k], env.np.reshape(env.vec(*v), (-1, 1)), f"{name} exponents {k}")
        for k, v in x["orbitals_coeff"].items():
            env.eq(d["orbitals_coeff"][k], env.np.reshape(env.vec(*v), (-1, 1)), f"{name} coefficients {k}")
        wreck(d)


def ugbs(env):
    env.fresh_modules()
    w = C25.Writer(env)
    text, want = C26.HEAD, {"H": {s: [] for s in "SPDF"}, "He": {s: [] for s in "SPDF"}}
    for k, (e, s) in enumerate((("H", "S"), ("H", "P"), ("He", "S"), ("He", "S"))):
        z, c = w.num(f"z{k}", 6), w.num(f"c{k}")
        text += f"{e}    {s}\n  {z[0]:>20}           {c[0]}\n"
        want[e][s].append(z[1])
    C26.opener(env, text, [])
    f = env.mod("parse_ugbs").get_ugbs_exponents
    for e in ("H", "He", "H", "HE", "He"):
        out = f(e)
        for s in "SPDF":
            x = want[e.capitalize()][s]
            env.check(len(out[s]) == len(x), f"{e} {s}")
            for a, b in zip(out[s], x):
                env.eq(a, b, f"{e} {s}")
        wreck(out)


def candidates(env, name, n):
    G = env.mod("greedy")
    c = [env.reals("c", n), env.reals("d", n)]
    e = [env.posreals("e", n), env.posreals("g", n)]
    f = [env.pos("fa"), env.pos("fb")]
    fn = getattr(G, name)
    first = {}
    for k, j in ((0, 0), (1, 0), (0, 1), (0, 0), (1, 0), (0, 1)):
        sc, se = env.snapshot(c[k]), env.snapshot(e[k])
        out = fn(f[j], c[k], e[k])
        vals = [list(x) for x in out]
        if (k, j) in first:
            env.check(len(vals) == len(first[k, j]), "as many candidates again")
            for x, y in zip(vals, first[k, j]):
                env.eq(env.vec(*x), env.vec(*y), "same candidates again")
        first[k, j] = vals
        for x in out:
            x[...] = 777
        env.unchanged(c[k], sc, "coefficients unchanged")
        env.unchanged(e[k], se, "exponents unchanged")


def redundant(env):
    G = env.mod("greedy")
    c = [env.reals("c", 2), env.reals("d", 2)]
    e = [env.reals("e", 2), env.reals("g", 2)]
    first = {}
    for k in (0, 1, 0):
        sc, se = env.snapshot(c[k]), env.snapshot(e[k])
        out = G.remove_redundancies(c[k], e[k], 1.)
        vals = [list(x) for x in out]
        if k in first:
            env.check([len(x) for x in vals] == [len(x) for x in first[k]], "same numbers again")
            for x, y in zip(vals, first[k]):
                env.eq(env.vec(*x), env.vec(*y), "same functions again")
        first[k] = vals
        env.unchanged(c[k], sc, "coefficients unchanged")
        env.unchanged(e[k], se, "exponents unchanged")
        for x in out:
            if x is not c[k] and x is not e[k]:
                x[...] = 777


def strategies(env, choice, top):
    """two strategy objects, run one after the other and again: each returns what its own optimiser produced."""
    made = []
    for t in (0, 1):
        one = env.vec(env.real(f"c{t}"), env.posreals(f"a{t}", 1)[0])
        vals = {key_of(env, one): env.frac(100)}
        log = []

        def optimise(s, params, local, t=t, vals=vals, log=log):
            n = s.model.num_s + s.model.num_p
            k = len(log)
            out = env.vec(*[env.real(f"p{t}_{k}_{i}") for i in range(n)], *[env.frac(1000 * t + 10 * k + i) for i in range(n)])
            log.append(out)
            # s candidates win, every refinement improves
            vals[key_of(env, out)] = env.frac(50 + (0 if s.model.num_p == 0 else 1) + k) if local else env.frac(90 - k)
            return out

        made.append((greedy(env, choice, one, optimise, lambda p, vals=vals: vals[key_of(env, p)]), one, vals, log))
    env.hook("print", lambda *a, **k: None)
    for t in (0, 1, 0):
        (s, model, fit), one, vals, log = made[t]
        start = len(log)
        r = s.run(2., d_threshold=1e-9, max_numb_funcs=top)
        n = r["num_s"] + r["num_p"]
        mine = log[start:]
        last = mine[-1] if mine else one
        env.eq(r["coeffs"], last[:n], f"coefficients of strategy {t}")
        env.eq(r["exps"], last[n:], f"exponents of strategy {t}")
        env.eq(r["fun"], vals[key_of(env, last)], f"objective of strategy {t}")
        grown = 1 + (2 if choice == "pick-two" else 1) * (len(r["parameters_iteration"]) - 1)
        env.check(grown == n, f"history of strategy {t}")
        env.check(len(r["performance"]) == len(r["parameters_iteration"]), f"performance of strategy {t}")
        env.eq(r["parameters_iteration"][0], one, f"start of strategy {t}")
        wreck([r["performance"], r["coeffs"], r["exps"]])
        r["parameters_iteration"].clear()


def jobs(tier):
    T = tier == "thorough"
    out = []
    for mol in (False, True):
        for dim, ns, np_, nrm in ((0, 1, 1, True), (1, 1, 1, False), (2, 1, 1, True), (3, 2, 1, False)) + (((3, 2, 2, True), (2, 3, 1, False)) if T else ()):
            if not mol or (ns and np_):
                out.append(Job(models, dict(dim=dim, ns=ns, np_=np_, normalize=nrm, molecular=mol), concrete=6))
    out.append(Job(measures, {}, concrete=6))
    out.append(Job(grids, {}, concrete=6))
    for cls in ("scipy", "fpi"):
        for shared in (True, False):
            out.append(Job(fits, dict(cls=cls, shared=shared), concrete=4))
    for n in (1, 2) + ((3,) if T else ()):
        out.append(Job(slater, dict(n=n), concrete=6))
    for case in (0, 2, 3) + ((1, 4, 5, 6) if T else ()):
        out.append(Job(atoms, dict(case=case), concrete=4))
    out.append(Job(readers, {}, concrete=4))
    out.append(Job(ugbs, {}, concrete=4))
    for name in ("get_next_choices", "get_two_next_choices", "pick_two_lose_one"):
        for n in (1, 2) + ((3,) if T else ()):
            out.append(Job(candidates, dict(name=name, n=n), concrete=4))
    out.append(Job(redundant, {}, concrete=6))
    for choice, top in (("pick-one", 2), ("pick-one", 3), ("pick-two", 3), ("pick-two-lose-one", 2)):
        out.append(Job(strategies, dict(choice=choice, top=top), concrete=2))
    return out
