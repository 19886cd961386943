"""C06: Tsallis measure."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["measure.TsallisDivergence.__init__", "measure.TsallisDivergence.evaluate", "measure.TsallisDivergence.alpha/mask_value"]
BOUNDS = {"points": "1-3 (thorough 4), 15 (40), and 150 (300) for order two, in a fixed pattern of masked and zero points", "alpha": "every real order for the value and derivative; rational orders 3/2, 2, 3 and 5/2 for the lower bound",
          "mask value": "any positive value"}
ASSUMPTIONS = ["for alpha below one the density is positive and no point is masked (the code's power of a zero ratio is infinite there)",
               "alpha is not within 1e-10 of one"]


def make(env, alpha, symbolic_mask):
    T = env.mod("measure").TsallisDivergence
    if alpha == "above":
        a = env.real("alpha", lo=1, lo_strict=True, sample=(1.05, 3))
        env.assume(a - 1 > env.frac(1, 10 ** 9))
    elif alpha == "below":
        a = env.real("alpha", lo=0, hi=1, hi_strict=True, sample=(0, 0.95))
        env.assume(1 - a > env.frac(1, 10 ** 9))
    else:
        a = env.frac(*alpha)
    if symbolic_mask:
        mask = env.real("mask", lo=0, sample=(0, 0.4))
        M = T(alpha=a, mask_value=mask)
    else:
        M = T(alpha=a)
        mask = env.frac(1, 10 ** 12)
    env.eq(M.mask_value, mask, "mask value")
    env.eq(M.alpha, a, "alpha")
    return M, a, mask


def pointwise(env, n, alpha, symbolic_mask):
    M, a, mask = make(env, alpha, symbolic_mask)
    above = alpha != "below"
    f = env.reals("f", n, lo=0, lo_strict=not above)
    g = env.reals("g", n, lo=None if above else 0, sample=(-0.1, 1.0) if above else (0.45, 2))
    if not above:
        for i in range(n):
            env.assume(g[i] > mask)
    sf, sg = env.snapshot(f), env.snapshot(g)
    v = M.evaluate(f, g)
    w, dw = M.evaluate(f, g, deriv=True)
    env.check(v.shape == (n,) and w.shape == (n,) and dw.shape == (n,), "one entry per point")
    for i in range(n):
        if env.holds(g[i] <= mask) or env.holds(f[i] == 0):
            rv, rd = -f[i] / (a - 1), 0
        else:
            t = f[i] / g[i]
            rv, rd = f[i] * (env.pow(t, a - 1) - 1) / (a - 1), -env.pow(t, a)
        env.eq(v[i], rv, f"value {i}")
        env.eq(w[i], rv, f"value with derivative {i}")
        env.eq(dw[i], rd, f"derivative {i}")
    env.unchanged(f, sf, "density unchanged")
    env.unchanged(g, sg, "model unchanged")
    env.eq(M.evaluate(f, g), v, "evaluated again")


def mixed(env, n, alpha):
    """many points, a fixed pattern of masked points, points without density and plain ones; all values any."""
    M, a, mask = make(env, alpha, True)
    f, g = env.posreals("f", n), env.posreals("g", n)
    for i in range(n):
        if i % 5 in (1, 2):
            g[i] = mask * g[i] / (g[i] + 1) if i % 5 == 1 else mask
        else:
            g[i] = mask + g[i]
        if i % 3 == 0:
            f[i] = env.frac(0)
    v = M.evaluate(f, g)
    w, dw = M.evaluate(f, g, deriv=True)
    for i in range(n):
        if i % 5 in (1, 2) or i % 3 == 0:
            rv, rd = -f[i] / (a - 1), env.frac(0)
        else:
            t = f[i] / g[i]
            rv, rd = f[i] * (env.pow(t, a - 1) - 1) / (a - 1), -env.pow(t, a)
        env.eq(v[i], rv, f"value {i}")
        env.eq(w[i], rv, f"value with derivative {i}")
        env.eq(dw[i], rd, f"derivative {i}")


def derivative(env, n, alpha, symbolic_mask):
    M, a, mask = make(env, alpha, symbolic_mask)
    f = env.posreals("f", n)
    g = env.posreals("g", n)
    for i in range(n):
        env.assume(g[i] > mask)
    v, dv = M.evaluate(f, g, deriv=True)
    val, ref = env.grad(lambda p: M.evaluate(f, env.vec(*p)), list(g))
    for i in range(n):
        env.eq(dv[i], ref[i, i], f"derivative {i}", tol=2e-5)
        for j in range(n):
            if i != j:
                env.eq(ref[i, j], 0, f"value {i} does not depend on model at {j}", tol=2e-5)
    env.eq(M.evaluate(g, g), env.vec(*[0] * n), "zero where density and model agree")


def bound(env, alpha):
    """alpha > 1: f ((f/g)^(alpha-1) - 1)/(alpha-1) >= f - g."""
    M, a, mask = make(env, alpha, False)
    f, g = env.reals("f", 1, lo=0), env.posreals("g", 1)
    env.assume(g[0] > mask)
    v = M.evaluate(f, g)
    if env.holds(f[0] > 0):
        # exp(u) >= 1 + u at u = (alpha-1) log(f/g), and log(t) <= t - 1 at t = g/f, both multiplied through by f
        t = f[0] / g[0]
        env.lemma(f[0] * (env.pow(t, a - 1) - 1) / (a - 1) >= f[0] * env.log(t))
        env.lemma(f[0] * env.log(t) >= f[0] - g[0])
    env.le(f[0] - g[0], v[0], "integrand at least f - g")


def refused(env):
    T = env.mod("measure").TsallisDivergence
    a = env.real("alpha", sample=(-3, 3))
    val, exc = env.attempt(T, alpha=a)
    bad = env.or_(a < 0, a == 1)
    if env.holds(bad):
        env.check(isinstance(exc, ValueError), "negative or unit alpha is refused")
    elif env.holds(env.abs(a - 1) > env.frac(1, 10 ** 9)):
        env.check(exc is None, "other alpha is accepted")
    D = T()
    env.eq(D.alpha, env.frac(1001, 1000), "default alpha")
    env.eq(D.mask_value, env.frac(1, 10 ** 12), "default mask value")
    env.check(env.raises(ValueError, T, 1), "alpha one is refused")
    env.check(env.raises(ValueError, T, 1.0), "alpha one is refused")
    env.check(env.raises(ValueError, T, -1), "alpha minus one is refused")


def rewritten(env, n, alpha):
    """one measure object, the caller's arrays overwritten between evaluations; earlier results stay what they were."""
    M, a, mask = make(env, alpha, False)
    f, g = env.posreals("f", n), env.posreals("g", n)
    for i in range(n):
        env.assume(g[i] > mask)
    seen = []
    for t in range(3):
        if t:
            overwrite(env, g if t == 1 else f, f"new{t}", lo=0, lo_strict=True)
            for i in range(n):
                env.assume(g[i] > mask)
        v, dv = M.evaluate(f, g, deriv=True)
        w = M.evaluate(f, g)
        q = [f[i] / g[i] for i in range(n)]
        seen.append((v, dv, w, [f[i] * (env.pow(q[i], a - 1) - 1) / (a - 1) for i in range(n)], [-env.pow(q[i], a) for i in range(n)]))
    for t, (v, dv, w, rv, rd) in enumerate(seen):
        env.eq(v, env.vec(*rv), f"value with derivative {t}")
        env.eq(w, env.vec(*rv), f"value {t}")
        env.eq(dv, env.vec(*rd), f"derivative {t}")


def jobs(tier):
    T = tier == "thorough"
    out = [Job(refused, {}, concrete=30)]
    for sm in (False, True):
        for n in ((1, 2, 3, 4) if T else (1, 2)):
            for alpha in ("above", "below", (3, 2), (2, 1)):
                out.append(Job(pointwise, dict(n=n, alpha=alpha, symbolic_mask=sm), concrete=12, max_paths=20000))
    for alpha in ("above", (2, 1)):
        out.append(Job(mixed, dict(n=(300 if alpha == (2, 1) else 40) if T else (150 if alpha == (2, 1) else 15), alpha=alpha), concrete=4))
    for alpha in ("above", "below", (2, 1)):
        for n in (1, 2):
            out.append(Job(derivative, dict(n=n, alpha=alpha, symbolic_mask=n == 1), concrete=8))
    for alpha in ("above", (3, 2), (2, 1), (3, 1), (5, 2)):
        out.append(Job(bound, dict(alpha=alpha), concrete=12))
    for alpha in ("above", "below", (2, 1), (3, 2)):
        out.append(Job(rewritten, dict(n=2, alpha=alpha), concrete=6))
    return out
