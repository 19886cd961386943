"""C05: Kullback-Leibler measure."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["measure.KLDivergence.__init__", "measure.KLDivergence.evaluate", "measure.KLDivergence.mask_value", "measure.KLDivergence.negative_val"]
BOUNDS = {"points": "1-3 fully symbolic signs/masks (thorough 4), 400 (1100) unmasked, 15 (40) in a fixed pattern", "mask value, penalty": "any non-negative mask value, any penalty"}
ASSUMPTIONS = ["density is non-negative", "real arithmetic: f ln(f/g) is the real number, f = 0 counts 0"]


def measure(env, symbolic_mask):
    K = env.mod("measure").KLDivergence
    if symbolic_mask:
        mask = env.real("mask", lo=0, sample=(0, 0.4))
        pen = env.real("pen", sample=(1, 1e6))
        M = K(mask_value=mask, negative_val=pen)
        env.eq(M.mask_value, mask, "mask value")
        env.eq(M.negative_val, pen, "penalty")
    else:
        M = K()
        mask, pen = env.frac(1, 10 ** 12), 100000
    return M, mask, pen


def pointwise(env, n, symbolic_mask):
    """every sign / mask / zero pattern of n points."""
    M, mask, pen = measure(env, symbolic_mask)
    f = env.reals("f", n, lo=0)
    g = env.reals("g", n, sample=(-0.1, 1.0) if n < 3 else (0.0, 1.0))
    sf, sg = env.snapshot(f), env.snapshot(g)
    v = M.evaluate(f, g)
    w, dw = M.evaluate(f, g, deriv=True)
    env.check(v.shape == (n,) and w.shape == (n,) and dw.shape == (n,), "one entry per point")
    neg = False
    for i in range(n):
        if env.holds(g[i] < 0):
            neg = True
            break
    if neg:
        for a, l in ((v, "value"), (w, "value with derivative"), (dw, "derivative")):
            env.eq(a, env.vec(*[pen] * n), "penalty " + l)
    else:
        for i in range(n):
            if env.holds(g[i] <= mask):
                rv, rd = 0, -1
            elif env.holds(f[i] == 0):
                rv, rd = 0, 0
            else:
                rv, rd = f[i] * env.log(f[i] / g[i]), -(f[i] / g[i])
            env.eq(v[i], rv, f"value {i}")
            env.eq(w[i], rv, f"value with derivative {i}")
            env.eq(dw[i], rd, f"derivative {i}")
    env.unchanged(f, sf, "density unchanged")
    env.unchanged(g, sg, "model unchanged")
    env.eq(M.evaluate(f, g), v, "evaluated again")


def divergence(env, n, symbolic_mask):
    """unmasked points: exact derivative, integrand at least f - g, equality only where f = g."""
    M, mask, pen = measure(env, symbolic_mask)
    f = env.reals("f", n, lo=0)
    g = env.reals("g", n, lo=0, lo_strict=True)
    for i in range(n):
        env.assume(g[i] > mask)
    v, dv = M.evaluate(f, g, deriv=True)
    for i in range(n):
        if env.holds(f[i] > 0):
            t = g[i] / f[i]
            # log t <= t - 1, with equality only at one; the code's term is f log(f/g)
            env.lemma(env.and_(env.log(t) <= t - 1, env.implies(env.log(t) == t - 1, t == 1)))
        env.le(f[i] - g[i], v[i], f"integrand at least f - g {i}", tol=1e-9)
        env.check(env.implies(v[i] == f[i] - g[i], f[i] == g[i]), f"f - g only where equal {i}")
    if n > 1:
        env.le(env.sum(f[i] - g[i] for i in range(n)), env.sum(v[i] for i in range(n)), "sum at least the difference of the sums")
    for i in range(n):
        env.assume(f[i] > 0)
    val, ref = env.grad(lambda p: M.evaluate(f, env.vec(*p)), list(g))
    for i in range(n):
        env.eq(dv[i], ref[i, i], f"derivative {i}", tol=2e-5)
        for j in range(n):
            if i != j:
                env.eq(ref[i, j], 0, f"value {i} does not depend on model at {j}", tol=2e-5)
    same = M.evaluate(g, g)
    env.eq(same, env.vec(*[0] * n), "zero where density and model agree")


def unmasked(env, n):
    M = env.mod("measure").KLDivergence()
    f = env.posreals("f", n)
    g = env.posreals("g", n)
    for i in range(n):
        env.assume(g[i] > env.frac(1, 10 ** 12))
    v, dv = M.evaluate(f, g, True)
    env.eq(v, env.vec(*[f[i] * env.log(f[i] / g[i]) for i in range(n)]), "value")
    env.eq(dv, env.vec(*[-(f[i] / g[i]) for i in range(n)]), "derivative")


def mixed(env, n):
    """many points, a fixed pattern of masked points, points without density and plain ones; all values any."""
    M, mask, pen = measure(env, True)
    f, g = env.posreals("f", n), env.posreals("g", n)
    for i in range(n):
        if i % 5 in (1, 2):
            g[i] = mask * g[i] / (g[i] + 1) if i % 5 == 1 else mask
        else:
            g[i] = mask + g[i]
        if i % 3 == 0:
            f[i] = env.frac(0)
    v = M.evaluate(f, g)
    w, dw = M.evaluate(f, g, deriv=True)
    for i in range(n):
        gone = i % 5 in (1, 2)
        rv = env.frac(0) if gone or i % 3 == 0 else f[i] * env.log(f[i] / g[i])
        env.eq(v[i], rv, f"value {i}")
        env.eq(w[i], rv, f"value with derivative {i}")
        env.eq(dw[i], env.frac(-1) if gone else -(f[i] / g[i]), f"derivative {i}")
    g[n // 2] = -env.pos("neg")
    for a in (M.evaluate(f, g),) + tuple(M.evaluate(f, g, True)):
        env.eq(a, env.vec(*[pen] * n), "penalty everywhere")


def rewritten(env, n, first):
    """one measure object, the caller's arrays overwritten between evaluations (also after a negative model or masked points)."""
    M = env.mod("measure").KLDivergence()
    mask = env.frac(1, 10 ** 12)
    f, g = env.posreals("f", n), env.posreals("g", n)
    for i in range(n):
        env.assume(g[i] > mask)
    if first == "negative":
        g[0] = -env.pos("neg")
    elif first == "masked":
        g[n - 1] = env.frac(0)
    seen = [(M.evaluate(f, g, True), M.evaluate(f, g))]
    want = []
    for t in range(3):
        if t == 0:
            if first == "negative":
                want.append(([100000] * n, [100000] * n))
                continue
        if t:
            overwrite(env, g if t == 1 else f, f"new{t}", lo=0, lo_strict=True)
            for i in range(n):
                env.assume(g[i] > mask)
            seen.append((M.evaluate(f, g, True), M.evaluate(f, g)))
        z = [first == "masked" and t == 0 and i == n - 1 for i in range(n)]
        want.append(([0 if z[i] else f[i] * env.log(f[i] / g[i]) for i in range(n)], [-1 if z[i] else -(f[i] / g[i]) for i in range(n)]))
    for t in range(3):
        (v, dv), w = seen[t]
        env.eq(v, env.vec(*want[t][0]), f"value with derivative {t}")
        env.eq(w, env.vec(*want[t][0]), f"value {t}")
        env.eq(dv, env.vec(*want[t][1]), f"derivative {t}")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for sm in (False, True):
        for n in ((1, 2, 3, 4) if T else (1, 2, 3)):
            out.append(Job(pointwise, dict(n=n, symbolic_mask=sm), concrete=30, max_paths=20000))
        for n in (1, 2, 3):
            out.append(Job(divergence, dict(n=n, symbolic_mask=sm), concrete=12))
    out.append(Job(unmasked, dict(n=1100 if T else 400), concrete=4))
    out.append(Job(mixed, dict(n=40 if T else 15), concrete=4))
    for first in ("plain", "negative", "masked"):
        for n in (1, 3):
            out.append(Job(rewritten, dict(n=n, first=first), concrete=6))
    return out
