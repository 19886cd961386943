"""C17: control of the fixed-point run."""
from vf.engine import Job

FUNCTIONS = ["fit.KLDivergenceFPI.run", "fit.KLDivergenceFPI._update_params", "fit._BaseFit.goodness_of_fit"]
BOUNDS = {"steps": "maxiter 0 to 3 (4 in thorough), 6 (9) where no criterion stops the run earlier", "functions": "1 or 2", "thresholds": "any reals", "integrals": "any values (the grid's integrate is an arbitrary function)"}
ASSUMPTIONS = ["the grid's integrate returns a positive number for each distinct integrand (or, in the not-a-number harness, not-a-number from one chosen call on)",
               "the parameters after k steps are those the code returns for maxiter=k with thresholds that never stop it; what a step computes is C14"]


class AnyGrid:
    """integrate is an arbitrary function of the integrand."""

    def __init__(self, env, pts, nan_from=None):
        self.env, self.points, self.memo, self.nan_from = env, pts, {}, nan_from
        self.nan = False

    def __len__(self):
        return len(self.points)

    def _key(self, arr):
        if self.env.symbolic:
            return tuple(getattr(x, "id", repr(x)) for x in arr)
        return arr.tobytes()

    def integrate(self, arr):
        k = self._key(arr)
        if k not in self.memo:
            i = len(self.memo)
            self.memo[k] = float("nan") if self.nan and i >= self.nan_from else self.env.pos(f"I{i}")
        return self.memo[k]


def make(env, model, nan_from=None):
    F, M = env.mod("fit"), env.mod("model")
    pts = env.posreals("x", 2)
    grid = AnyGrid(env, pts, nan_from)
    mod = M.AtomicGaussianDensity(pts, num_s=model.count("s"), num_p=model.count("p"), normalize=False)
    fit = F.KLDivergenceFPI(grid, env.posreals("f", 2), mod)
    return grid, fit, len(model)


MODE = {"both": (True, True), "coeffs": (True, False), "exps": (False, True)}


def biggest(env, a, b):
    return env.max([env.abs(a[k] - b[k]) for k in range(len(a))])


def control(env, model, mode, m, disp=False, long=False):
    env.hook("print", lambda *a, **k: None)
    grid, fit, nb = make(env, model)
    oc, oe = MODE[mode]
    c0, e0 = env.posreals("c", nb), env.posreals("e", nb)
    C, E, G = [c0], [e0], [None]
    for k in range(1, m + 1):
        r = fit.run(c0, e0, oc, oe, maxiter=k, c_threshold=-1., e_threshold=-1., d_threshold=-1.)
        C.append(r["coeffs"])
        E.append(r["exps"])
        G.append(fit.goodness_of_fit(C[k], E[k]))
    ct, et, dt = env.real("ct", sample=(0, 2)), env.real("et", sample=(0, 2)), env.real("dt", sample=(0, 1))
    sc, se = env.snapshot(c0), env.snapshot(e0)
    if long:
        # nothing stops the run before its limit
        ct = et = dt = -1.
    r = fit.run(c0, e0, opt_coeffs=oc, opt_expons=oe, maxiter=m, c_threshold=ct, e_threshold=et, d_threshold=dt, disp=disp)
    n, stopped = m, False
    for k in range(1, m + 1):
        small = env.and_(biggest(env, C[k], C[k - 1]) <= ct, biggest(env, E[k], E[k - 1]) <= et)
        if k > 1:
            small = env.or_(small, env.abs(G[k][4] - G[k - 1][4]) <= dt)
        if env.holds(small):
            n, stopped = k, True
            break
    env.check(len(r["fun"]) == n, "one divergence per step")
    env.check(len(r["performance"]) == n, "one performance entry per step")
    env.eq(r["coeffs"], C[n], "coefficients")
    env.eq(r["exps"], E[n], "exponents")
    if not oc:
        env.eq(r["coeffs"], c0, "fixed coefficients")
    if not oe:
        env.eq(r["exps"], e0, "fixed exponents")
    for k in range(1, min(n, len(r["fun"])) + 1):
        env.eq(r["fun"][k - 1], G[k][4], f"divergence after step {k}")
        for j in range(5):
            env.eq(r["performance"][k - 1][j], G[k][j], f"performance {j} after step {k}")
    if n == m:
        if not stopped:
            env.check(not r["success"], "no success at the step limit")
        elif n > 1 and env.holds(env.abs(G[n][4] - G[n - 1][4]) > dt):
            env.check(not r["success"], "no success while the divergence changes")
    else:
        env.check(bool(r["success"]), "success when a criterion stops the run")
    env.unchanged(c0, sc, "initial coefficients unchanged")
    env.unchanged(e0, se, "initial exponents unchanged")


def not_numbers(env, model, mode, m, start):
    grid, fit, nb = make(env, model, start)
    oc, oe = MODE[mode]
    c0, e0 = env.posreals("c", nb), env.posreals("e", nb)
    ct, et, dt = env.real("ct", sample=(0, 2)), env.real("et", sample=(0, 2)), env.real("dt", sample=(0, 1))
    grid.nan = True
    r = fit.run(c0, e0, opt_coeffs=oc, opt_expons=oe, maxiter=m, c_threshold=ct, e_threshold=et, d_threshold=dt)
    bad = any(env.isnan(r["coeffs"][k]) or env.isnan(r["exps"][k]) for k in range(nb))
    bad = bad or len(r["fun"]) > 0 and env.isnan(r["fun"][-1])
    if bad:
        env.check(not r["success"], "no success without numbers")
    else:
        env.check(True, "numbers")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for j, (model, mode) in enumerate([("s", "both"), ("p", "coeffs"), ("s", "exps"), ("sp", "both"), ("ss", "coeffs"), ("sp", "exps")]):
        for m in range(0, (5 if T else 4) if len(model) == 1 else (4 if T else 3)):
            out.append(Job(control, dict(model=model, mode=mode, m=m, disp=(j + m) % 2 == 1), concrete=6))
        if j < 3:
            out.append(Job(control, dict(model=model, mode=mode, m=9 if T else 6, disp=j == 1, long=True), concrete=4))
        for start in range(1, 14 if T else 9):
            out.append(Job(not_numbers, dict(model=model, mode=mode, m=3 if start % 3 else 1, start=start), concrete=6))
    return out
