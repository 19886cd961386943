"""C13: what ScipyFit.run hands to the optimiser and how it reports its answer."""
from vf.engine import Job
from props.common import make_grid, make_model, overwrite, volume_weights, integral

FUNCTIONS = ["fit.ScipyFit.__init__", "fit.ScipyFit.run", "fit.ScipyFit.func", "fit.ScipyFit.const_norm", "fit.ScipyFit.evaluate_model", "fit._BaseFit.goodness_of_fit",
             "fit._BaseFit.integrate", "measure.*.evaluate", "model.*.evaluate", "grid.*.integrate"]
BOUNDS = {"grid": "2 points", "model": "s, sp, ssspp, two- and three-centre molecular", "optimiser": "any two evaluation points per run, any returned point, value, jacobian and success flag",
          "options": "SLSQP and trust-constr, every optimisation mode, constraint on/off, display on/off"}
ASSUMPTIONS = ["scipy.optimize.minimize is replaced by an arbitrary optimiser that evaluates the objective, the constraints and the callback at arbitrary points "
               "(SLSQP: in one buffer that it overwrites) and returns arbitrary results"]


class Res(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)


def bound_pairs(bounds, n):
    if hasattr(bounds, "lb"):
        def at(v, k):
            return v[k] if hasattr(v, "__len__") else v
        return [(at(bounds.lb, k), at(bounds.ub, k)) for k in range(n)]
    return [tuple(b) for b in bounds]


def run(env, method, kind, sph, model, mode, constraint, disp, meas="ls", target=False, earlier=None):
    F, M = env.mod("fit"), env.mod("measure")
    grid, w = make_grid(env, kind, 2)
    mod, nb = make_model(env, grid, model, True)
    f = env.posreals("f", 2)
    ms = M.SquaredDifference() if meas == "ls" else M.KLDivergence(mask_value=0.)
    wt = env.reals("wt", 2)
    tgt = env.pos("N") if target else None
    vw = volume_weights(env, grid, w, sph)
    tot = tgt if target else integral(env, vw, f)
    fit = F.ScipyFit(grid, f, mod, measure=ms, method=method, weights=wt, integral_dens=tgt, spherical=sph, mask_value=0.)
    c0, e0 = env.posreals("c0_", nb), env.posreals("e0_", nb)
    oc, oe = mode in ("both", "coeffs"), mode in ("both", "exps")
    dim = nb * (oc + oe)
    pts = [[env.real(f"y{j}_{k}", lo=1e-12, sample=(0.05, 3)) for k in range(dim)] for j in range(2)]
    z = env.vec(*[env.real(f"z{k}", lo=1e-12, sample=(0.05, 3)) for k in range(dim)])
    zf, zj, ok = env.real("zf"), env.reals("zj", dim), env.bool("ok")
    message = "any message"
    printed = []
    calls = []
    env.hook("print", lambda *a, **k: printed.append(a))

    def split(x):
        if mode == "both":
            return env.vec(*x[:nb]), env.vec(*x[nb:])
        return (env.vec(*x), e0) if mode == "coeffs" else (c0, env.vec(*x))

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        calls.append(1)
        args = args if isinstance(args, tuple) else (args,)
        env.check(str(method).lower() == fit.method and str(method).lower() == want, "method")
        guess = list(c0) * oc + list(e0) * oe
        env.check(len(x0) == dim, "size of the starting point")
        env.eq(env.vec(*x0), env.vec(*guess), "starting point")
        bp = bound_pairs(bounds, dim)
        env.check(len(bp) == dim, "one bound per parameter")
        for lo, hi in bp:
            env.check(lo == 1e-12 and (hi is None or hi == float("inf")), "bounds")
        env.check((options or {}).get("maxiter") == 17, "iteration limit")
        t = (options or {}).get("ftol" if want == "slsqp" else "xtol", tol)
        env.check(t == 1e-9, "tolerance")
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        env.check(len(cons) == (1 if constraint else 0), "constraint present exactly when requested")
        buf = env.vec(*pts[0])
        for j, p in enumerate(pts):
            for k in range(dim):
                buf[k] = p[k]
            cc, ee = split(p)
            g = mod.evaluate(cc, ee)
            gv, dg = mod.evaluate(cc, ee, True)
            kv, dk = ms.evaluate(f, g, True)
            out = fun(buf, *args)
            if jac is True or (jac and not callable(jac)):
                obj, dobj = out
            else:
                obj, dobj = out, (jac(buf, *args) if callable(jac) else None)
            env.eq(obj, integral(env, vw, [wt[i] * kv[i] for i in range(2)]), f"objective at point {j}")
            if dobj is not None:
                off = nb if mode == "exps" else 0
                for k in range(dim):
                    env.eq(dobj[k], integral(env, vw, [wt[i] * dk[i] * dg[i, off + k] for i in range(2)]), f"gradient {k} at point {j}")
            for con in cons:
                if isinstance(con, dict):
                    env.check(con["type"] == "eq", "equality constraint")
                    a = con.get("args", ())
                    fn, low, cj = (lambda q: con["fun"](q, *a)), 0, con.get("jac")
                else:
                    env.eq(con.lb, con.ub, "equality constraint")
                    fn, low, cj = con.fun, con.lb, con.jac
                v = fn(buf)
                d = tot - integral(env, vw, g)
                env.eq((v - low) * (v - low), d * d, f"constraint at point {j}")
                if callable(cj):
                    s0 = v - low
                    cjv = cj(buf) if not isinstance(con, dict) else cj(buf, *a)
                    _, ref = env.grad(lambda q: env.vec(fn(env.vec(*q))), list(p))
                    for k in range(dim):
                        env.eq(cjv[k], ref[0, k], f"constraint derivative {k} at point {j}", tol=2e-5)
            env.eq(buf, env.vec(*p), "the optimiser's buffer is not modified")
            if callback is not None:
                if want == "slsqp":
                    callback(buf)
                else:
                    callback(buf, Res(x=buf, fun=obj, nit=j))
                env.eq(buf, env.vec(*p), "the callback does not modify the point")
        return Res(x=z, fun=zf, jac=zj, success=ok, message=message, nit=3, status=0, nfev=7, njev=7)

    if earlier:
        # an earlier run of the same object from the same arrays, which the caller has overwritten since
        def first(fun, x0, args=(), **kw):
            fun(env.vec(*list(x0)), *args)
            return Res(x=env.vec(*[2 * v for v in x0]), fun=env.frac(5), jac=env.vec(*[0] * len(x0)), success=False, message="earlier", nit=1, status=1, nfev=1, njev=1)
        env.hook("minimize", first)
        fit.run(c0, e0, opt_coeffs=earlier in ("both", "coeffs"), opt_expons=earlier in ("both", "exps"), maxiter=3, tol=1e-2, disp=False, with_constraint=not constraint)
        overwrite(env, c0, "c1_", lo=0, lo_strict=True)
        overwrite(env, e0, "e1_", lo=0, lo_strict=True)
    env.hook("minimize", minimize)
    want = method.lower()
    sc, se, sf = env.snapshot(c0), env.snapshot(e0), env.snapshot(f)
    r = fit.run(c0, e0, opt_coeffs=oc, opt_expons=oe, maxiter=17, tol=1e-9, disp=disp, with_constraint=constraint)
    env.check(len(calls) == 1, "the optimiser is called once")
    env.check(disp or not printed, "nothing is printed without display")
    cc, ee = split(list(z))
    env.check(r["coeffs"].shape == (nb,) and r["exps"].shape == (nb,), "parameter shapes")
    env.eq(r["coeffs"], cc, "coefficients")
    env.eq(r["exps"], ee, "exponents")
    env.eq(r["fun"], zf, "objective value")
    env.check(env.or_(env.and_(r["success"], ok), env.and_(env.not_(r["success"]), env.not_(ok))), "success flag")
    env.check(r["message"] == message, "message")
    env.eq(r["jacobian"], zj, "jacobian")
    g = mod.evaluate(cc, ee)
    dif = [env.abs(f[i] - g[i]) for i in range(2)]
    perf = r["performance"]
    env.check(len(perf) == 5, "five measures")
    env.eq(perf[0], integral(env, vw, g), "performance: integral")
    env.eq(perf[1], integral(env, vw, dif), "performance: L1")
    env.eq(perf[2], env.max(dif), "performance: L infinity")
    env.eq(perf[3], integral(env, vw, [(f[i] - g[i]) * (f[i] - g[i]) for i in range(2)]), "performance: least squares")
    env.eq(perf[4], integral(env, vw, [f[i] * env.log(f[i] / g[i]) for i in range(2)]), "performance: Kullback-Leibler")
    env.unchanged(c0, sc, "initial coefficients unchanged")
    env.unchanged(e0, se, "initial exponents unchanged")
    env.unchanged(f, sf, "density unchanged")


def nothing(env, method):
    F, M = env.mod("fit"), env.mod("measure")
    grid, w = make_grid(env, "quad", 2)
    mod, nb = make_model(env, grid, "s", True)
    fit = F.ScipyFit(grid, env.posreals("f", 2), mod, measure=M.SquaredDifference(), method=method)
    env.hook("minimize", lambda *a, **k: env.check(False, "nothing to optimise"))
    env.check(env.raises(ValueError, fit.run, env.posreals("c", 1), env.posreals("e", 1), opt_coeffs=False, opt_expons=False), "refused when nothing is optimised")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for method in ("SLSQP", "trust-constr", "Trust-Constr", "slsqp"):
        for mode in ("both", "coeffs", "exps"):
            for constraint in (True, False):
                for disp in (False, True):
                    k = len(out)
                    combos = [("quad", True, "sp"), ("quad3", False, "mol")] if T else [[("quad", True, "sp"), ("quad3", False, "mol"), ("cubic", False, "s")][k % 3]]
                    if method in ("Trust-Constr", "slsqp") and not (mode == "coeffs" and not disp):
                        continue
                    for kind, sph, model in combos:
                        for meas in (("ls", "kl") if T else ("ls" if k % 2 else "kl",)):
                            out.append(Job(run, dict(method=method, kind=kind, sph=sph, model=model, mode=mode, constraint=constraint, disp=disp, meas=meas, target=k % 4 < 2), concrete=4))
    for method in ("SLSQP", "trust-constr"):
        for j, mode in enumerate(("both", "coeffs", "exps")):
            out.append(Job(run, dict(method=method, kind="quad", sph=False, model="mol3", mode=mode, constraint=True, disp=j == 0, meas="ls", target=True), concrete=4))
            out.append(Job(run, dict(method=method, kind="quad", sph=True, model="ssspp", mode=mode, constraint=j < 2, disp=j == 1, meas="ls", target=False), concrete=4))
        for j, (mode, earlier) in enumerate((("both", "both"), ("coeffs", "exps"), ("exps", "both"), ("coeffs", "coeffs"), ("exps", "exps"), ("both", "coeffs"))):
            out.append(Job(run, dict(method=method, kind="quad", sph=j % 2 == 0, model="sp" if j % 3 else "s", mode=mode, constraint=j % 2 == 0, disp=False, meas="ls", target=j % 3 == 0, earlier=earlier), concrete=4))
        out.append(Job(nothing, dict(method=method), concrete=2))
    return out
