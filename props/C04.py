"""C04: squared-difference measure."""
from vf.engine import Job
from props.common import overwrite

FUNCTIONS = ["measure.SquaredDifference.evaluate"]
BOUNDS = {"points": "1, 2, 3, 30 and 1100 (thorough 5000)"}
ASSUMPTIONS = []


def exact(env, n):
    M = env.mod("measure").SquaredDifference()
    f, g = env.reals("f", n), env.reals("g", n)
    sf, sg = env.snapshot(f), env.snapshot(g)
    v = M.evaluate(f, g)
    env.check(v.shape == (n,), "one value per point")
    env.eq(v, env.vec(*[(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]), "value")
    w, dw = M.evaluate(f, g, deriv=True)
    env.eq(w, v, "value with derivative")
    env.check(dw.shape == (n,), "one derivative per point")
    for i in range(n):
        env.le(0, v[i], f"value {i} not negative")
        env.check(env.implies(v[i] == 0, f[i] == g[i]), f"zero only where equal {i}")
    env.unchanged(f, sf, "density unchanged")
    env.unchanged(g, sg, "model unchanged")
    val, ref = env.grad(lambda p: M.evaluate(f, env.vec(*p)), list(g))
    for i in range(n):
        env.eq(dw[i], ref[i, i], f"derivative {i}", tol=1e-5)
        for j in range(n):
            if i != j:
                env.eq(ref[i, j], 0, f"value {i} does not depend on model at {j}", tol=1e-5)
    env.eq(M.evaluate(f, g), v, "evaluated again")
    same = M.evaluate(f, env.vec(*list(f)))
    env.eq(same, env.vec(*[0] * n), "zero where density and model agree")


def wide(env, n):
    M = env.mod("measure").SquaredDifference()
    f, g = env.reals("f", n), env.reals("g", n)
    v, dv = M.evaluate(f, g, deriv=True)
    env.eq(v, env.vec(*[(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)]), "value")
    env.eq(dv, env.vec(*[-2 * (f[i] - g[i]) for i in range(n)]), "derivative")


def rewritten(env, n):
    """one measure object, the caller's arrays overwritten between evaluations; earlier results stay what they were."""
    M = env.mod("measure").SquaredDifference()
    f, g = env.reals("f", n), env.reals("g", n)
    seen = []
    for t in range(3):
        if t:
            overwrite(env, g if t == 1 else f, f"new{t}")
        v, dv = M.evaluate(f, g, deriv=True)
        w = M.evaluate(f, g)
        seen.append((v, dv, w, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(n)], [-2 * (f[i] - g[i]) for i in range(n)]))
    for t, (v, dv, w, rv, rd) in enumerate(seen):
        env.eq(v, env.vec(*rv), f"value with derivative {t}")
        env.eq(w, env.vec(*rv), f"value {t}")
        env.eq(dv, env.vec(*rd), f"derivative {t}")


def jobs(tier):
    return [Job(exact, dict(n=n)) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 6))] + \
        [Job(wide, dict(n=n), concrete=4) for n in ((30, 1100) if tier == "quick" else (30, 200, 5000))] + \
        [Job(rewritten, dict(n=n), concrete=4) for n in (1, 3)]
