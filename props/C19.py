"""C19: redundant exponents."""
import itertools

from vf.engine import Job

FUNCTIONS = ["greedy.remove_redundancies"]
BOUNDS = {"functions": "1 to 5 (6 in thorough), ascending ones to 6 (8), 8 (15) in separated groups of fixed membership", "values": "any coefficients, any exponents in any order, any positive threshold"}
ASSUMPTIONS = ["threshold positive"]


def same(env, a, b):
    return a == b if env.symbolic else abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def group(env, n, default=False, sorted_=False):
    G = env.mod("greedy")
    c = env.reals("c", n)
    if sorted_:
        step = env.reals("step", n, lo=0)
        e = env.vec(*[env.sum(step[j] for j in range(i + 1)) for i in range(n)])
    else:
        e = env.reals("e", n)
    eps = env.frac(1, 1000) if default else env.real("eps", lo=0, lo_strict=True, sample=(0.3, 2))
    sc, se = env.snapshot(c), env.snapshot(e)
    nc, ne = G.remove_redundancies(c, e) if default else G.remove_redundancies(c, e, eps)
    m = len(ne)
    env.check(len(nc) == m and 1 <= m <= n, "matching lengths")
    # which exponents were kept
    pe, pn = env.probe([e[i] for i in range(n)]), env.probe([ne[i] for i in range(m)])
    kept, last = [], -1
    for k in range(m):
        left = range(last + 1, n - (m - k) + 1)
        last = min(left, key=lambda i: (abs(pe[i] - pn[k]), i))
        kept.append(last)
        env.eq(ne[k], e[last], "kept exponents in order")
    env.eq(env.sum(nc[k] for k in range(m)), env.sum(c[i] for i in range(n)), "total coefficient")
    for a in range(m):
        for b in range(a):
            env.check(env.abs(ne[a] - ne[b]) >= eps, "kept exponents at least the threshold apart")
    gone = [i for i in range(n) if i not in kept]
    options = []
    for join in itertools.product(range(m), repeat=len(gone)):
        conds = [env.abs(e[i] - e[kept[k]]) < eps for i, k in zip(gone, join)]
        conds += [same(env, nc[k], c[kept[k]] + env.sum(c[i] for i, t in zip(gone, join) if t == k)) for k in range(m)]
        options.append(env.and_(*conds))
    env.check(env.or_(*options), "every dropped exponent is close to the kept one its coefficient joins")
    if m < n:
        env.check(env.or_(*[env.abs(e[i] - e[j]) < eps for i in range(n) for j in range(i)]), "nothing removed when all are apart")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")


def clusters(env, pattern):
    """many functions in well separated groups, in any given order: one function per group with the group's total coefficient."""
    G = env.mod("greedy")
    n = len(pattern)
    names = sorted(set(pattern))
    eps = env.real("eps", lo=0, lo_strict=True, sample=(0.3, 2))
    c = env.reals("c", n)
    off = env.reals("off", n, lo=0, hi=1)
    gap = env.posreals("gap", len(names))
    base = [env.sum(gap[j] + 2 * eps for j in range(i + 1)) for i in range(len(names))]
    e = env.vec(*[base[names.index(x)] + off[i] * eps / 2 for i, x in enumerate(pattern)])
    sc, se = env.snapshot(c), env.snapshot(e)
    nc, ne = G.remove_redundancies(c, e, eps)
    env.check(len(nc) == len(ne) == len(names), "one function per group")
    for k in range(min(len(names), len(ne))):
        inside = [env.abs(ne[k] - base[j]) <= eps / 2 for j in range(len(names))]
        for j, x in enumerate(names):
            if env.holds(inside[j]):
                env.eq(nc[k], env.sum(c[i] for i in range(n) if pattern[i] == x), f"coefficient of group {x}")
                env.check(env.or_(*[same(env, ne[k], e[i]) for i in range(n) if pattern[i] == x]), f"exponent of group {x} is one of the given")
    for j, x in enumerate(names):
        env.check(env.or_(*[env.abs(ne[k] - base[j]) <= eps / 2 for k in range(len(ne))]), f"group {x} is kept")
    env.unchanged(c, sc, "coefficients unchanged")
    env.unchanged(e, se, "exponents unchanged")


def jobs(tier):
    T = tier == "thorough"
    out = [Job(group, dict(n=n), concrete=12) for n in range(1, 7 if T else 6)]
    out += [Job(group, dict(n=n, sorted_=True), concrete=12) for n in range(2, 9 if T else 7)]
    out += [Job(group, dict(n=3, default=True), concrete=4)]
    for pattern in ("abcabcab", "aabbccdd", "abababab", "dcbaabcd", "aaaaaaaa") + (("abcdefabcdef", "aaabbbcccddd", "abacadaeafag", "aaaaaaaaaaaaaaa") if T else ()):
        out.append(Job(clusters, dict(pattern=pattern), concrete=6, max_paths=4000))
    return out
