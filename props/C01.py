"""C01: atomic Gaussian model value."""
from vf.engine import Job
from props.common import atomic_value, points, exponents, overwrite

FUNCTIONS = ["model.AtomicGaussianDensity.__init__", "model.AtomicGaussianDensity.evaluate", "model.AtomicGaussianDensity._eval_s",
             "model.AtomicGaussianDensity._eval_p", "model.AtomicGaussianDensity.change_numb_s_and_numb_p",
             "model.AtomicGaussianDensity.points/radii/nbasis/prefactor"]
BOUNDS = {"points": "1-3 (quick), up to 6 (thorough), plus instances with 300 and 1100 (thorough 3000) points", "dimensions": "1-D array, 1, 2, 3 (thorough 4) columns",
          "functions": "0-3 s, 0-2 p and one instance of 6 s, 5 p (quick); 0-4 s, 0-3 p and 9 s, 8 p (thorough)", "history": "up to 3 changes of the numbers of functions"}
ASSUMPTIONS = ["exponents are non-negative when normalisation is on (a negative exponent has no normalised Gaussian)"]


def value(env, npts, dim, ns, np_, normalize, center):
    m = env.mod("model")
    pts = points(env, npts, dim)
    c = env.reals("c", ns + np_)
    e = exponents(env, "e", ns + np_, normalize)
    if center:
        cen = env.reals("cen", max(dim, 1))
        scen = env.snapshot(cen)
        obj = m.AtomicGaussianDensity(pts, center=cen, num_s=ns, num_p=np_, normalize=normalize)
    else:
        cen = [0] * max(dim, 1)
        obj = m.AtomicGaussianDensity(pts, num_s=ns, num_p=np_, normalize=normalize)
    ref = atomic_value(env, pts, cen, ns, np_, c, e, normalize)
    sp, sc, se = env.snapshot(pts), env.snapshot(c), env.snapshot(e)
    v = obj.evaluate(c, e)
    env.eq(v, ref, "value")
    v2 = obj.evaluate(c, e, deriv=True)
    env.eq(v2[0], ref, "value with derivatives")
    v3 = obj.evaluate(c, e, False)
    env.eq(v3, ref, "value evaluated again")
    env.eq(v, ref, "first value after later evaluations")
    env.unchanged(pts, sp, "points unchanged")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")
    if center:
        env.unchanged(cen, scen, "centre unchanged")
    env.check(obj.num_s == ns and obj.num_p == np_ and obj.nbasis == ns + np_ and obj.natoms == 1, "numbers of functions")
    env.eq(obj.points, pts, "points")
    if ns == 1 and np_ == 0 and not normalize and not center:
        one = m.AtomicGaussianDensity(pts)
        env.check(one.num_s == 1 and one.num_p == 0, "one s-type function by default")
        env.eq(one.evaluate(c, e), ref, "not normalised by default")


def history(env, npts, dim, steps, normalize, derivs):
    """same object used for several numbers of functions in turn; each evaluation is that of a fresh model."""
    m = env.mod("model")
    pts = points(env, npts, dim)
    cen = env.reals("cen", dim)
    obj = m.AtomicGaussianDensity(pts, center=cen, num_s=steps[0][0], num_p=steps[0][1], normalize=normalize)
    for t, (ns, np_) in enumerate(steps):
        if t:
            obj.change_numb_s_and_numb_p(ns, np_)
        c = env.reals(f"c{t}", ns + np_)
        e = exponents(env, f"e{t}", ns + np_, normalize)
        ref = atomic_value(env, pts, cen, ns, np_, c, e, normalize)
        got = obj.evaluate(c, e, deriv=derivs)
        env.eq(got[0] if derivs else got, ref, f"value after step {t}")
        env.check(obj.num_s == ns and obj.num_p == np_ and obj.nbasis == ns + np_, f"numbers of functions after step {t}")


def rewritten(env, npts, dim, ns, np_, normalize, which, derivs):
    """the caller overwrites its own arrays between evaluations; earlier results stay what they were."""
    m = env.mod("model")
    pts = points(env, npts, dim)
    n = ns + np_
    obj = m.AtomicGaussianDensity(pts, num_s=ns, num_p=np_, normalize=normalize)
    cen = [0] * max(dim, 1)
    c, e = env.reals("c", n), exponents(env, "e", n, normalize)
    seen = []
    for t in range(3):
        if t and "c" in which:
            overwrite(env, c, f"c{t}")
        if t and "e" in which:
            overwrite(env, e, f"e{t}", **(dict(lo=0) if normalize else {}))
        ref = atomic_value(env, pts, cen, ns, np_, c, e, normalize)
        got = obj.evaluate(c, e, deriv=derivs)
        got = got[0] if derivs else got
        env.eq(got, ref, f"value after {t} overwrites")
        seen.append((got, ref))
    for t, (got, ref) in enumerate(seen):
        env.eq(got, ref, f"value {t} after the later evaluations")


def independent(env, ns, np_, normalize):
    """two models alive at once do not influence each other; a wrong-length vector is refused."""
    m = env.mod("model")
    p1, p2 = points(env, 2, 3, "x"), points(env, 1, 3, "y")
    a = m.AtomicGaussianDensity(p1, num_s=ns, num_p=np_, normalize=normalize)
    b = m.AtomicGaussianDensity(p2, center=env.reals("cen", 3), num_s=np_, num_p=ns, normalize=not normalize)
    c = env.reals("c", ns + np_)
    e = exponents(env, "e", ns + np_, True)
    va = a.evaluate(c, e)
    b.evaluate(c, e)
    env.eq(va, atomic_value(env, p1, [0, 0, 0], ns, np_, c, e, normalize), "value of the first model")
    env.eq(a.evaluate(c, e), atomic_value(env, p1, [0, 0, 0], ns, np_, c, e, normalize), "value of the first model again")
    env.check(env.raises(ValueError, a.evaluate, env.reals("cc", ns + np_ + 1), env.reals("ee", ns + np_ + 1, lo=0)),
              "vectors longer than the basis are refused")


def jobs(tier):
    T = tier == "thorough"
    out = []
    shapes = [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 0), (0, 2)]
    dims = [0, 1, 3]
    if T:
        shapes += [(2, 2), (4, 3), (0, 3), (4, 0), (3, 1)]
        dims = [0, 1, 2, 3, 4]
    for ns, np_ in shapes:
        for norm in (False, True):
            for dim in dims:
                for cen in ((False, True) if T or (ns, np_) == (2, 1) else (dim != 1,)):
                    out.append(Job(value, dict(npts=4 if T else 2, dim=dim, ns=ns, np_=np_, normalize=norm, center=cen), concrete=12 if T else 4))
    for norm in (False, True):
        out.append(Job(value, dict(npts=300, dim=3, ns=2, np_=1, normalize=norm, center=True), concrete=2))
        out.append(Job(value, dict(npts=2, dim=3, ns=9 if T else 6, np_=8 if T else 5, normalize=norm, center=True), concrete=2))
        out.append(Job(value, dict(npts=3000 if T else 1100, dim=0, ns=1, np_=1, normalize=norm, center=True), concrete=2))
        out.append(Job(value, dict(npts=1, dim=2, ns=1, np_=1, normalize=norm, center=True), concrete=4))
        for d in (False, True):
            out.append(Job(history, dict(npts=2, dim=2, steps=[(1, 0), (2, 1), (0, 2), (1, 1)], normalize=norm, derivs=d), concrete=4))
            if T:
                out.append(Job(history, dict(npts=3, dim=3, steps=[(2, 2), (1, 3), (3, 1), (0, 1), (4, 0), (2, 2)], normalize=norm, derivs=d), concrete=6))
        for which in ("c", "e", "ce"):
            for ns, np_ in ((2, 0), (1, 1), (0, 1)) + (((2, 2), (0, 3)) if T else ()):
                out.append(Job(rewritten, dict(npts=2, dim=3 if which == "e" else 0, ns=ns, np_=np_, normalize=norm, which=which, derivs=which == "c"), concrete=4))
        out.append(Job(independent, dict(ns=1, np_=2, normalize=norm), concrete=4))
    return out
