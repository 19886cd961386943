"""C20: greedy driver."""
from vf.engine import Job
from props.greedy_common import TooLong, build, key_of

FUNCTIONS = ["greedy.GreedyStrategy.run", "greedy.GreedyStrategy._find_best_lparams", "greedy.GreedyStrategy._split_parameters", "greedy.GreedyStrategy.eval_obj_function",
             "greedy.GreedyStrategy.store_errors", "greedy.GreedyStrategy._final_exit_info", "greedy.remove_redundancies", "greedy.get_next_choices", "greedy.get_two_next_choices",
             "greedy.pick_two_lose_one", "model.AtomicGaussianDensity.change_numb_s_and_numb_p"]
BOUNDS = {"max_numb_funcs": "1 to 4 (5 in thorough), one more for pick-two; 5 to 7 (9) where every extension improves", "rounds": "up to five consecutive rejections between acceptances", "objectives": "any reals, or not a number in chosen rounds",
          "threshold": "any real", "types": "s or p wins per round by pattern", "redundancies": "in the s group or the p group in chosen rounds, exponents equal or 1/1100 apart; 1/900 apart is not redundant"}
ASSUMPTIONS = ["the inner optimiser is a stand-in returning parameters of the right length: any coefficients, exponents one apart or (in redundant rounds) two equal ones",
               "the objective is a function of the parameters; the first objective is a number"]


def before(env, now, strategy, one, winners, inc):
    """an earlier run of the same object, which accepts one model per letter."""
    seen = {}
    step = [0]

    def objective(params):
        return seen.get(key_of(env, params), env.frac(100))

    def optimise(s, params, local):
        m = strategy.model
        n = m.num_s + m.num_p
        is_s = m.num_s > strategy.num_s if local else None
        out = env.vec(*[env.frac(7000 + 500 * step[0] + i + 100 * bool(local) + 50 * bool(is_s)) for i in range(2 * n)])
        if local:
            seen[key_of(env, out)] = env.frac(0 if is_s == (winners[step[0]] == "s") else 1)
        else:
            step[0] += 1
            seen[key_of(env, out)] = env.frac(90 - 3 * step[0])
        return out

    now[:] = [optimise, objective]
    strategy.run(2., d_threshold=1e-9, max_numb_funcs=1 + inc * len(winners))


def driver(env, choice, top, kinds, winners, disp=False, earlier="", falling=False, prints=lambda *a, **k: None):
    inc = 2 if choice == "pick-two" else 1
    env.hook("print", prints)
    thr = env.real("thr", sample=(0, 0.5))
    one = env.vec(env.real("c0"), env.frac(1))
    v0 = env.real("v0", sample=(3, 4))
    values = {key_of(env, one): v0}
    best = dict(v=v0, p=one, ns=1, np=0)
    prev = [None]
    hist, reds, rounds = [best], [0], [0]
    states = [0]

    def cont():
        s = hist[-1]
        if s["ns"] + s["np"] + inc > top or reds[0] >= 5:
            return False
        return prev[0] is None or env.holds(env.abs(s["v"] - prev[0]) >= thr)

    more = [cont()]
    won = [False]
    refined = [True]

    def objective(params):
        k = key_of(env, params)
        if k not in values:
            env.check(False, "objective evaluated for parameters nobody returned")
            return env.frac(1)
        return values[k]

    def optimise(strategy, params, local):
        cur = hist[-1]
        model = strategy.model
        want = winners[rounds[0] % len(winners)]
        if local:
            env.check(more[0], "stops at the limits")
            if not more[0]:
                raise TooLong
            if refined[0]:
                refined[0], won[0] = False, False
            is_s = model.num_s > cur["ns"]
            win = (want == "s") == is_s and not won[0]
            won[0] = won[0] or win
            val = env.frac(0 if win else 1)
            local_id = len(values)
            n = model.num_s + model.num_p
            out = env.vec(*[env.frac(1000 * local_id + i) for i in range(2 * n)])
            values[key_of(env, out)] = val
            return out
        r = rounds[0]
        rounds[0] += 1
        refined[0] = True
        ns, np_ = cur["ns"] + (inc if want == "s" else 0), cur["np"] + (inc if want == "p" else 0)
        env.check(model.num_s == ns and model.num_p == np_, "refined in the model of the chosen candidate")
        kind = kinds[r % len(kinds)]
        es, ep = [env.frac(1 + i) for i in range(ns)], [env.frac(1 + i) for i in range(np_)]
        dup = False
        if kind == "s" and ns > 1:
            es[-1], dup = es[0], True
        if kind == "p" and np_ > 1:
            ep[-1], dup = ep[0], True
        # closer than the documented threshold (redundant), a little further apart than it (not), on both sides of another exponent
        if kind == "c" and ns > 1:
            es[-1], dup = es[0] - env.frac(1, 1100), True
        if kind == "d" and np_ > 1:
            ep[0], dup = ep[-1] - env.frac(1, 1100), True
        if kind == "a":
            es = [1 + env.frac(i, 900) for i in range(ns)]
            ep = [1 + env.frac(i, 900) for i in range(np_)]
        out = env.vec(*[env.real(f"c{r + 1}_{i}") for i in range(ns + np_)], *es, *ep)
        v = float("nan") if kind == "n" else env.real(f"v{r + 1}", sample=(3 - 0.4 * r, 3.6 - 0.4 * r))
        values[key_of(env, out)] = v
        if falling:
            # longer runs: every extension improves by the threshold or more
            env.assume(v <= cur["v"])
            env.assume(cur["v"] - v >= thr)
        if not dup and kind != "n" and env.holds(v <= cur["v"]):
            prev[0] = cur["v"]
            hist.append(dict(v=v, p=out, ns=ns, np=np_))
            reds[0] = 0
        else:
            reds[0] += 1
        states.append(len(hist) - 1)
        more[0] = cont()
        return out

    strategy, model, fit = build(env, choice, one, lambda *a: now[0](*a), lambda p: now[1](p))
    now = [optimise, objective]
    if earlier:
        before(env, now, strategy, one, earlier, inc)
        now[:] = [optimise, objective]
    try:
        res = strategy.run(2., d_threshold=thr, max_numb_funcs=top, disp=disp)
    except TooLong:
        return
    env.check(not more[0], "goes on until a limit is reached")
    last = hist[-1]
    n = last["ns"] + last["np"]
    env.check(res["num_s"] == last["ns"] and res["num_p"] == last["np"], "numbers of functions")
    env.check(model.num_s == last["ns"] and model.num_p == last["np"] and strategy.num_s == last["ns"] and strategy.num_p == last["np"], "model left with those numbers")
    env.check(res["num_s"] + res["num_p"] <= top, "never more than max_numb_funcs")
    env.eq(res["coeffs"], last["p"][:n], "coefficients of the last accepted model")
    env.eq(res["exps"], last["p"][n:], "exponents of the last accepted model")
    env.eq(res["fun"], last["v"], "objective of the last accepted model")
    env.check(len(res["parameters_iteration"]) == len(hist) and len(res["performance"]) == len(hist), "one history entry per accepted model")
    for k, h in enumerate(hist[:len(res["parameters_iteration"])]):
        env.eq(res["parameters_iteration"][k], h["p"], f"parameters of accepted model {k}")
        env.eq(res["performance"][k][0], h["v"], f"performance of accepted model {k}")
    for k in range(1, len(hist)):
        env.check(hist[k]["v"] <= hist[k - 1]["v"], "accepted objectives never increase")
    env.check(isinstance(res["exit_information"], str), "exit information")
    if reds[0] >= 5:
        env.check(not res["success"], "no success after five rejections")
    return res, hist, states


def jobs(tier):
    T = tier == "thorough"
    out = []
    cases = [("pick-one", "w", "s"), ("pick-one", "w", "sp"), ("pick-one", "w", "p"), ("pick-one", "s", "s"), ("pick-one", "wp", "p"), ("pick-one", "ws", "sps"), ("pick-one", "wn", "sp"), ("pick-one", "nw", "ps"),
             ("pick-two", "w", "s"), ("pick-two", "ws", "ps"), ("pick-two", "wwn", "sp"), ("pick-two", "p", "p"), ("pick-two-lose-one", "w", "sp"), ("pick-two-lose-one", "wsn", "p"),
             ("pick-one", "wwp", "pps"), ("pick-one", "ca", "s"), ("pick-one", "da", "p"), ("pick-two", "ac", "s"), ("pick-two-lose-one", "ad", "ps"),  ("pick-two", "wp", "ps"), ("pick-two", "ws", "sp")]
    for j, (choice, kinds, winners) in enumerate(cases):
        for top in range(1, (6 if T else 5) + (choice == "pick-two")):
            out.append(Job(driver, dict(choice=choice, top=top, kinds=kinds, winners=winners, disp=(j + top) % 2 == 0), concrete=8, max_paths=6000))
    for choice, kinds, winners, top in (("pick-one", "a", "s", 7), ("pick-one", "w", "sppsp", 7), ("pick-two", "w", "sp", 9), ("pick-two-lose-one", "w", "ps", 5)):
        out.append(Job(driver, dict(choice=choice, top=top if T else min(top, 7), kinds=kinds, winners=winners, falling=True), concrete=4, max_paths=6000))
    again = [("pick-one", 3, "w", "sp", "s"), ("pick-one", 2, "n", "p", "ps"), ("pick-one", 1, "w", "s", "p"), ("pick-two", 3, "w", "s", "p"), ("pick-two-lose-one", 3, "ws", "ps", "sp")]
    for j, (choice, top, kinds, winners, earlier) in enumerate(again):
        out.append(Job(driver, dict(choice=choice, top=top, kinds=kinds, winners=winners, disp=j % 2 == 0, earlier=earlier), concrete=8, max_paths=6000))
    return out
