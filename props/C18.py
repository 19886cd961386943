"""C18: greedy candidate guesses."""
from vf.engine import Job
from props.common import paired

FUNCTIONS = ["greedy.get_next_choices", "greedy.get_two_next_choices", "greedy.pick_two_lose_one"]
BOUNDS = {"functions": "pick-one 1 to 10 (16 thorough), pick-two 1 to 7 (10), pick-two-lose-one 1 to 5 (7)", "values": "any coefficients, exponents, factor and fill value"}
ASSUMPTIONS = ["factor not zero", "ascending claim: factor above one, exponents positive and ascending (strictly)"]


def pick_one(env, factor, c, e, fill):
    """documented extensions as (coefficients, exponents) lists."""
    n = len(e)
    out = []
    for i in range(n + 1):
        new = e[0] / factor if i == 0 else e[n - 1] * factor if i == n else (e[i - 1] + e[i]) / 2
        out.append((c[:i] + [fill] + c[i:], e[:i] + [new] + e[i:]))
    return out


def pick_two(env, factor, c, e, fill):
    out = []
    for i, (c1, e1) in enumerate(pick_one(env, factor, c, e, fill)):
        out.extend(pick_one(env, factor, c1, e1, fill)[i:])
    return out


def lose_one(env, factor, c, e, fill):
    out = []
    for c2, e2 in pick_two(env, factor, c, e, fill):
        for j in range(len(c2)):
            out.append((c2[:j] + c2[j + 1:], e2[:j] + e2[j + 1:]))
    return out


KINDS = {"one": ("get_next_choices", pick_one, 1), "two": ("get_two_next_choices", pick_two, 2), "lose": ("pick_two_lose_one", lose_one, 1)}


def candidates(env, which, n, default=False):
    G = env.mod("greedy")
    name, ref, more = KINDS[which]
    c, e = env.reals("c", n), env.reals("e", n)
    factor = env.real("factor", sample=(1.1, 3))
    env.assume(factor != 0)
    fill = env.frac(100) if default else env.real("fill")
    sc, se = env.snapshot(c), env.snapshot(e)
    f = getattr(G, name)
    got = f(factor, c, e) if default else f(factor, c, e, fill)
    want = [a + b for a, b in ref(env, factor, [c[i] for i in range(n)], [e[i] for i in range(n)], fill)]
    env.check(len(got) == len(want), "number of candidates")
    if which == "two":
        # every candidate keeps the n functions in order, by construction of the reference: an independent count
        env.check(len(want) == (n + 1) * (n + 4) // 2, "number of pick-two candidates")
    for k, (g, w) in enumerate(zip(paired(env, got, want), want)):
        if g is None:
            continue
        env.check(g.shape == (2 * (n + more),), f"length of candidate {k}")
        env.eq(g, env.vec(*w), f"candidate {k}")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")


def ascending(env, which, n):
    G = env.mod("greedy")
    name, _, more = KINDS[which]
    c = env.reals("c", n)
    step = env.posreals("step", n)
    e = env.vec(*[env.sum(step[j] for j in range(i + 1)) for i in range(n)])
    factor = env.real("factor", lo=1, lo_strict=True, sample=(1.1, 3))
    for g in getattr(G, name)(factor, c, e, env.frac(100)):
        m = n + more
        for i in range(m - 1):
            env.check(g[m + i] < g[m + i + 1], "ascending")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for which, top in (("one", 16 if T else 10), ("two", 10 if T else 7), ("lose", 7 if T else 5)):
        for n in range(1, top + 1):
            out.append(Job(candidates, dict(which=which, n=n, default=False), concrete=4))
            out.append(Job(ascending, dict(which=which, n=n), concrete=4))
        out.append(Job(candidates, dict(which=which, n=2, default=True), concrete=4))
    return out
