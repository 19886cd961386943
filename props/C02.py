"""C02: the atomic model's derivative matrix is the exact gradient of its value."""
from vf.engine import Job
from props.common import points, atomic_value, overwrite

FUNCTIONS = ["model.AtomicGaussianDensity.evaluate", "model.AtomicGaussianDensity._eval_s", "model.AtomicGaussianDensity._eval_p",
             "model.AtomicGaussianDensity.change_numb_s_and_numb_p"]
BOUNDS = {"points": "1-3 (quick), up to 5 (thorough), plus one 300-point instance", "dimensions": "1-D array, 1-3 columns",
          "functions": "0-3 s, 0-2 p and one instance of 5 s, 4 p (quick); up to 4 s, 3 p and 7 s, 6 p (thorough)"}
ASSUMPTIONS = ["exponents are positive (the derivative of a^1.5 is taken on the open domain)"]


def gradient(env, npts, dim, ns, np_, normalize, center, after=None):
    m = env.mod("model")
    pts = points(env, npts, dim)
    n = ns + np_
    kw = {}
    if center:
        kw["center"] = env.reals("cen", max(dim, 1))
    s0, p0 = after or (ns, np_)
    obj = m.AtomicGaussianDensity(pts, num_s=s0, num_p=p0, normalize=normalize, **kw)
    if after:
        obj.evaluate(env.reals("c0", s0 + p0), env.posreals("e0", s0 + p0), deriv=True)
        obj.change_numb_s_and_numb_p(ns, np_)
    c = env.reals("c", n)
    e = env.posreals("e", n)

    def value(p):
        return obj.evaluate(env.vec(*p[:n]), env.vec(*p[n:]))
    val, ref = env.grad(value, list(c) + list(e))
    sc, se = env.snapshot(c), env.snapshot(e)
    g, dg = obj.evaluate(c, e, deriv=True)
    env.eq(g, val, "value")
    env.check(dg.shape == (npts, 2 * n), "one row per point, one column per parameter")
    env.eq(dg, ref, "derivative", tol=2e-6)
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")
    g2, dg2 = obj.evaluate(c, e, deriv=True)
    env.eq(dg2, dg, "derivative evaluated again")


def rewritten(env, npts, dim, ns, np_, normalize, which):
    """derivatives after the caller has overwritten its arrays in place; earlier results stay what they were."""
    m = env.mod("model")
    pts = points(env, npts, dim)
    n = ns + np_
    cen = env.reals("cen", max(dim, 1))
    obj = m.AtomicGaussianDensity(pts, center=cen, num_s=ns, num_p=np_, normalize=normalize)
    c, e = env.reals("c", n), env.posreals("e", n)
    seen = []
    for t in range(2):
        if t and "c" in which:
            overwrite(env, c, "c1")
        if t and "e" in which:
            overwrite(env, e, "e1", lo=0, lo_strict=True)
        val, ref = env.grad(lambda p: atomic_value(env, pts, cen, ns, np_, p[:n], p[n:], normalize), list(c) + list(e))
        g, dg = obj.evaluate(c, e, True)
        env.eq(dg, ref, f"derivative after {t} overwrites", tol=2e-6)
        seen.append((dg, ref))
    env.eq(seen[0][0], seen[0][1], "first derivative after the later evaluation", tol=2e-6)


def documented(env, npts, dim, ns, np_, normalize):
    """against the derivative of the documented formula, so that a value that is itself wrong cannot hide a wrong derivative."""
    m = env.mod("model")
    pts = points(env, npts, dim)
    n = ns + np_
    cen = env.reals("cen", max(dim, 1))
    obj = m.AtomicGaussianDensity(pts, center=cen, num_s=ns, num_p=np_, normalize=normalize)
    c = env.reals("c", n)
    e = env.posreals("e", n)

    def value(p):
        return atomic_value(env, pts, cen, ns, np_, p[:n], p[n:], normalize)
    val, ref = env.grad(value, list(c) + list(e))
    g, dg = obj.evaluate(c, e, True)
    env.eq(dg, ref, "derivative of the documented value", tol=2e-6)


def jobs(tier):
    T = tier == "thorough"
    out = []
    shapes = [(1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 0), (0, 2)]
    if T:
        shapes += [(2, 2), (4, 3), (0, 3), (4, 0), (3, 1)]
    for ns, np_ in shapes:
        for norm in (False, True):
            for dim in ((0, 1, 2, 3) if T else (0, 3)):
                for cen in ((False, True) if T else (True,)):
                    out.append(Job(gradient, dict(npts=3 if T else 2, dim=dim, ns=ns, np_=np_, normalize=norm, center=cen), concrete=6 if T else 4))
    for norm in (False, True):
        out.append(Job(gradient, dict(npts=300, dim=3, ns=1, np_=1, normalize=norm, center=True), concrete=2))
        out.append(Job(gradient, dict(npts=1, dim=3, ns=7 if T else 5, np_=6 if T else 4, normalize=norm, center=True), concrete=2))
        out.append(Job(gradient, dict(npts=1, dim=3, ns=2, np_=1, normalize=norm, center=False), concrete=4))
        out.append(Job(gradient, dict(npts=2, dim=1, ns=1, np_=2, normalize=norm, center=True, after=(2, 1)), concrete=4))
        out.append(Job(gradient, dict(npts=2, dim=3, ns=2, np_=0, normalize=norm, center=True, after=(0, 2)), concrete=4))
        for which in ("c", "e", "ce"):
            out.append(Job(rewritten, dict(npts=2, dim=0, ns=1, np_=1, normalize=norm, which=which), concrete=4))
            if T:
                out.append(Job(rewritten, dict(npts=2, dim=3, ns=2, np_=2, normalize=norm, which=which), concrete=4))
        out.append(Job(documented, dict(npts=2, dim=3, ns=2, np_=2, normalize=norm), concrete=4))
    return out
