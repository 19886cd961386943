"""A greedy strategy whose inner optimiser and objective are under the harness's control."""


class TooLong(Exception):
    pass


class Stop(Exception):
    pass


def key_of(env, params):
    if env.symbolic:
        return tuple(getattr(x, "id", float(x) if not hasattr(x, "id") else None) for x in params)
    return tuple(float(x) for x in params)


def build(env, choice, one, optimise, objective, spherical=False):
    """strategy whose one-function start is `one` (2 values), whose optimiser is optimise(strategy, params, local) and whose
    objective is objective(params); everything else is the real code."""
    F, M, G, ME = (env.mod(k) for k in ("fit", "model", "greedy", "measure"))

    class Model(M.AtomicGaussianDensity):
        """value at the only grid point = objective of the parameters."""

        def evaluate(self, coeffs, expons, deriv=False):
            assert not deriv
            env.check(len(coeffs) == len(expons) == self.num_s + self.num_p, "parameters match the number of functions of the model")
            return env.vec(objective(env.np.hstack((coeffs, expons))))

    class Distance(ME.Measure):
        def evaluate(self, density, model, deriv=False):
            return model

    class Grid:
        points = env.arr([env.frac(1)])

        def integrate(self, arr):
            return arr[0]

        def __len__(self):
            return 1

    grid = Grid()
    model = Model(grid.points, num_s=1, num_p=0, normalize=False)
    fit = F.ScipyFit(grid, env.arr([env.frac(1)]), model, measure=Distance(), spherical=spherical)
    fit.goodness_of_fit = lambda c, e: [objective(env.np.hstack((c, e)))] + [0.] * 4

    class Strategy(G.GreedyStrategy):
        def get_best_one_function_solution(self):
            return one

        def get_optimization_routine(self, params, *args, local=False):
            return optimise(self, params, local)

    return Strategy(fit, choice), model, fit


def split(params, ns, np_):
    n = ns + np_
    return params[:ns], params[ns:n], params[n:n + ns], params[n + ns:]
