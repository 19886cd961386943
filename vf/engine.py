"""Run harnesses: explore all paths symbolically, discharge the obligations, replay counterexamples, validate against the real code."""
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as rnp

from . import arr as A
from . import env as E
from . import explore as X
from . import loader
from . import npshim
from . import smt
from . import sym as S
from .sym import EngineError

sys.setrecursionlimit(20000)


class Job:
    def __init__(self, fn, cfg=None, **opts):
        self.fn = fn
        self.cfg = cfg or {}
        self.opts = opts

    @property
    def name(self):
        return self.fn.__name__ + "(" + ",".join(f"{k}={v}" for k, v in self.cfg.items()) + ")"


class Deadline(Exception):
    pass


def concrete_run(job, values=None, rng=None):
    """(env, status) with status ok | skipped | failed"""
    env = E.ConcEnv(values, rng)
    S.set_ctx(None)
    with rnp.errstate(all="ignore"):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                job.fn(env, **job.cfg)
            except E.AssumeFailed:
                return env, "skipped"
            except E.HarnessBug:
                raise
            except Exception as e:
                env.failures.append(("unexpected exception", f"{type(e).__name__}: {e} @ {_where(e)}"))
    return env, "failed" if env.failures else "ok"


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))


class Outcome:
    """Result of one job (picklable)."""

    def __init__(self, name):
        self.name = name
        self.paths = self.cut = self.branches = self.goals = self.discharged = self.definedness = 0
        self.unknown_branches = 0
        self.validated = 0
        self.obs_compared = 0
        self.violations = []
        self.pending = None
        self.problems = []
        self.samples = []
        self.stats = {}
        self.wall = 0.0
        self.goal_labels = set()
        self.mismatch = []
        self.vars = 0


def unfinished(job):
    out = Outcome(job.name)
    out.problems.append("no verdict within the time limit of the check")
    return out


def values_json(vals):
    out = {}
    for k, v in vals.items():
        if isinstance(v, Fraction):
            v = float(v)
        out[k] = v
    return out


def run_job(job, seed, deadline, tier="quick"):
    smt.STATS = smt.Stats()
    smt.reset()
    S.reset_table()
    A.SINGLE_USED[0] = False
    smt._fv.clear()
    out = Outcome(job.name)
    t0 = time.time()
    rng = random.Random(f"{seed}:{job.name}")
    try:
        _run(job, out, rng, deadline)
    except Deadline:
        out.problems.append("time limit reached before all paths were explored")
    except X.Limit as e:
        out.problems.append(f"exploration limit: {e}")
    except EngineError as e:
        out.problems.append(f"engine: {e} @ {_where(e)}")
    except MemoryError:
        out.problems.append("out of memory")
    except Exception as e:
        out.problems.append(f"internal: {type(e).__name__}: {e}\n{traceback.format_exc()}")
    if out.pending and not out.violations:
        out.violations.append(out.pending)
    if A.SINGLE_USED[0]:
        for v in out.violations:
            v["low_precision"] = True
    out.stats = smt.STATS.as_dict()
    out.wall = time.time() - t0
    return out


def _run(job, out, rng, deadline):
    opts = dict(job.opts)
    # --- concrete pre-runs: vacuity witness, sanity of the harness on the real code, observations for translation validation
    nconc = opts.get("concrete", 12)
    conc = []
    tries = 0
    while len(conc) < nconc and tries < nconc * 25:
        tries += 1
        env, st = concrete_run(job, None, random.Random(rng.random()))
        if st == "skipped":
            continue
        conc.append(env)
        if st == "failed":
            # the solver is asked first; this input is reported only if it comes to no verdict of its own
            out.pending = dict(label=env.failures[0][0], detail=f"{env.failures[0][0]}: {env.failures[0][1]}", values=values_json(env.used),
                               how="run validating the encoding against the real code")
            deadline = min(deadline, time.time() + 45)
            break
    paths = []
    opts["samples"] = [dict(env.used) for env in conc[:8]]

    def body(ctx):
        env = E.SymEnv(ctx, loader.Loaded())
        npshim_hooks_reset()
        job.fn(env, **job.cfg)

    witness = False
    for p in X.explore(body, opts):
        if time.time() > deadline:
            raise Deadline()
        ctx = p.ctx
        out.branches += ctx.branches
        out.unknown_branches += ctx.unknown_branches
        if p.result == "cut":
            out.cut += 1
            continue
        out.paths += 1
        out.vars = max(out.vars, len(ctx.vars))
        if p.result == "exception":
            if not confirm(job, out, p, None, "unexpected exception", p.exc, rng):
                r = smt.solve(ctx.pc, 10.0)
                if r.status == "unsat":
                    continue
                out.problems.append(f"symbolic run raised {type(p.exc).__name__}: {p.exc} but the real code does not\n{p.tb[-1500:]}")
            if out.violations:
                return
            continue
        ok = discharge(job, out, p, rng, deadline)
        if out.violations:
            return
        if len(paths) < 400:
            paths.append(p)
        if ctx.goals:
            witness = True
        if len(out.samples) < 2 and ctx.goals:
            out.samples.append(dict(path_condition=[S.show(l) for l in ctx.pc[:6]], obligations=[g.label for g in ctx.goals[:6]]))
    if not witness and not out.problems:
        out.problems.append("vacuous: no path reached an obligation")
    if not conc:
        # a witness through the solver
        ok = False
        for p in paths[:20]:
            r = smt.solve(p.ctx.pc, 10.0)
            if r.status == "sat" and r.model is not None:
                env, st = concrete_run(job, assignment(p.ctx, r.model, rng), rng)
                if st == "failed":
                    out.violations.append(dict(label=env.failures[0][0], detail=f"{env.failures[0][0]}: {env.failures[0][1]}", values=values_json(env.used), how="solver witness"))
                    return
                if st == "ok":
                    conc.append(env)
                    ok = True
                    break
        if not ok and not out.problems:
            out.problems.append("vacuity: no concrete input satisfies the assumptions of this harness")
    if not out.pending:
        validate(job, out, paths, conc)


def npshim_hooks_reset():
    pass


def fcheck(nodes, env):
    try:
        return S.evalf(nodes, env)
    except KeyError:
        return None


def validate(job, out, paths, conc):
    """every concrete run must agree with the symbolic observations of the path it belongs to."""
    for env in conc:
        vals = {k: v for k, v in env.used.items()}
        for p in paths:
            ctx = p.ctx
            if any(k not in vals for k in ctx.vars if "#" not in k):
                continue
            pcv = fcheck(ctx.pc, vals)
            if pcv is None or not all(pcv):
                continue
            terms = [t for _, t in ctx.obs]
            tv = fcheck([t for t in terms if isinstance(t, (S.Sym, S.SymBool))], vals)
            if tv is None:
                continue
            it = iter(tv)
            sym = [(l, next(it) if isinstance(t, (S.Sym, S.SymBool)) else t) for l, t in ctx.obs]
            bad = None
            if [l for l, _ in sym] != [l for l, _ in env.obs]:
                a, b = [l for l, _ in sym], [l for l, _ in env.obs]
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                bad = f"observation lists differ at {k}: {a[k:k + 2]} vs {b[k:k + 2]}"
            else:
                for (l, x), (_, y) in zip(sym, env.obs):
                    x, y = float(x), float(y)
                    if math.isnan(x) and not math.isnan(y):
                        continue        # float evaluation of the term overflowed
                    if abs(x - y) > 1e-7 + 1e-5 * max(abs(x), abs(y)) and not (math.isnan(x) and math.isnan(y)):
                        bad = f"{l}: encoding gives {x!r}, real code gives {y!r}"
                        break
            if bad:
                out.mismatch.append(bad + f" for {values_json(vals)}"[:400])
            else:
                out.validated += 1
                out.obs_compared += len(sym)
            break


def assignment(ctx, model, rng, jitter=0.0, fixed=None):
    """float values for every input of the path from a solver model (random where the model is silent)."""
    vals = {}
    for name, v in ctx.vars.items():
        if "#" in name:
            continue
        x = model.get(v.id) if model else None
        if v.op == "bvar":
            vals[name] = bool(x) if x is not None else rng.random() < 0.5
            continue
        if v.isint:
            if x is None:
                lo, hi = v.data[1], v.data[3]
                x = rng.randint(int(lo) if lo is not None else -5, int(hi) if hi is not None else 9)
            vals[name] = int(x)
            continue
        if x is None or (jitter and rng.random() < jitter):
            vals[name] = random_value(v, rng)
        else:
            vals[name] = float(x)
    return vals


def random_value(v, rng):
    lo, los, hi, his = v.data[1], v.data[2], v.data[3], v.data[4]
    if lo is not None and hi is not None:
        return float(rng.uniform(float(lo), float(hi)))
    if lo is not None:
        if not los and rng.random() < 0.15:
            return float(lo)
        return float(lo) + rng.choice([0.1, 1, 1, 2, 8]) * (0.03 + rng.random())
    if hi is not None:
        return float(hi) - rng.choice([0.1, 1, 1, 2, 8]) * (0.03 + rng.random())
    if rng.random() < 0.1:
        return float(rng.choice([0, 1, -1, 2]))
    return rng.choice([-1, 1]) * rng.choice([0.1, 1, 1, 3]) * rng.random()


def confirm(job, out, p, model, label, detail, rng, goal=None, tries=60, extra=()):
    """search for real inputs on which the untouched code shows the failure."""
    ctx = p.ctx if hasattr(p, "ctx") else p
    seen = 0
    runs = 0
    pcn = list(ctx.pc[:goal.npc]) if goal is not None else list(ctx.pc)
    target = pcn + ([S.not_(goal.node)] if goal is not None and extra == () else list(extra))
    t0 = time.time()
    models = [model] if model is not None else [None]
    for k in range(2000):
        if runs >= tries or time.time() - t0 > 40:
            break
        if k == 0:
            vals = assignment(ctx, model, rng)
        elif k < 400 and model is not None:
            vals = assignment(ctx, model, rng, jitter=[0.15, 0.35, 0.7][k % 3])
        else:
            vals = assignment(ctx, None, rng)
        if k and not any("#" in n for n in ctx.vars):
            ev = fcheck(target, vals)
            if ev is not None and not all(bool(x) for x in ev):
                if k % 25 != 1:
                    continue
        runs += 1
        env, st = concrete_run(job, vals, rng)
        if st == "failed":
            out.violations.append(dict(label=label, detail=f"{env.failures[0][0]}: {env.failures[0][1]}", values=values_json(env.used),
                                       how="solver counterexample" if k == 0 else "solver counterexample, values varied"))
            return True
    return False


def margin(node, vals):
    """by how much an (in)equality fails at float values; None where this has no meaning."""
    if node.op not in ("le", "lt", "eq"):
        return None
    a, b = S.evalf(list(node.args), vals)
    if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
        return None
    d = abs(a - b) if node.op == "eq" else a - b
    return d / (1 + abs(a) + abs(b))


def concretise(job, out, p, model, label, rng, goal=None, budget=30.0):
    """the solver's counterexample may give exp and log impossible values: fix the inputs below them, let the solver choose the
    rest for the exact values, then climb towards a clear violation on the same path and replay it on the real code."""
    ctx = p.ctx if hasattr(p, "ctx") else p
    if any("#" in n for n in ctx.vars):
        return False
    t0 = time.time()
    pcn = list(ctx.pc[:goal.npc]) if goal is not None else list(ctx.pc)
    node = goal.node if goal is not None else None
    roots = pcn + ([node] if node is not None else [])
    inside = set()
    for n in S.topo(roots):
        if n.op in ("exp", "cos", "sin", "powt") or (n.op == "pow" and n.args[1].data.denominator != 1):
            inside.update(x.data[0] for x in S.topo(list(n.args)) if x.op == "var")
    inside.discard("PI!")
    runs = 0
    for k in range(40):
        if time.time() - t0 > budget or runs > 40:
            return False
        start = assignment(ctx, model, rng, jitter=(0, 0.5, 1)[k % 3])
        vals = dict(start)
        fixed = {n: Fraction(start[n]).limit_denominator(1000) for n in inside if n in start and not isinstance(start[n], bool)}
        fixed["PI!"] = Fraction(math.pi)
        try:
            sub = S.substitute(roots, fixed)
        except (EngineError, ZeroDivisionError):
            continue
        if any(l.op == "false" for l in sub[:len(pcn)]):
            continue
        r = smt.solve(sub[:len(pcn)] + ([S.not_(sub[-1])] if node is not None else []), 4.0, STRATS)
        if r.status == "unsat" and node is not None:
            r = smt.solve(sub[:len(pcn)], 4.0, STRATS)
        if r.status != "sat" or r.model is None:
            continue
        for name, v in ctx.vars.items():
            if name in fixed:
                vals[name] = float(fixed[name])
            elif r.model.get(v.id) is not None:
                x = r.model[v.id]
                vals[name] = bool(x) if v.op == "bvar" else int(x) if v.isint else float(x)
        best = dict(vals)
        if node is not None and node.op in ("le", "lt", "eq"):
            m = margin(node, best)
            names = [n for n, v in ctx.vars.items() if v.op == "var" and not v.isint]
            for step in range(400):
                if m is not None and m > 1e-3 or time.time() - t0 > budget:
                    break
                cand = dict(best)
                for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
                    cand[n] = cand[n] * rng.choice([0.5, 0.8, 0.95, 1.05, 1.25, 2]) if cand[n] else rng.gauss(0, 0.3)
                    v = ctx.vars[n].data
                    if v[1] is not None and cand[n] < v[1] or v[3] is not None and cand[n] > v[3]:
                        cand[n] = best[n]
                ev = fcheck(pcn, cand)
                if ev is None or not all(bool(x) for x in ev):
                    continue
                mc = margin(node, cand)
                if mc is not None and (m is None or mc > m):
                    best, m = cand, mc
        runs += 1
        env, st = concrete_run(job, best, rng)
        if st == "failed":
            out.violations.append(dict(label=label, detail=f"{env.failures[0][0]}: {env.failures[0][1]}", values=values_json(env.used),
                                       how="solver counterexample, exponential inputs fixed"))
            return True
    return False


STRATS = ("z3", "nlsat", "cvc5")


def auto_lemmas(nodes):
    """instances of exp(t) >= 1+t, exp(-t) >= 1-t, log(t) <= t-1 for the terms present."""
    out = []
    for n in S.topo(nodes):
        if n.op == "exp":
            t = n.args[0]
            out.append(S.le(S.add(S.ONE, t), n))
            out.append(S.le(S.sub(S.ONE, t), S.exp(S.neg(t))))
        elif n.op == "log":
            t = n.args[0]
            out.append(S.le(n, S.sub(t, S.ONE)))
            out.append(S.le(S.sub(S.ONE, S.div(S.ONE, t)), n))
    return [l for l in out if l.op not in ("true", "false")]


def entailed(pc, c, opts):
    """True / False when the path condition decides c, else None."""
    ids = {l.id for l in pc}
    if c.id in ids:
        return True
    nc = S.not_(c)
    if nc.id in ids:
        return False
    cn = smt.cone(pc, [c])
    if smt.solve(cn + [nc], 0, ()).status == "unsat":
        return True
    if smt.solve(cn + [c], 0, ()).status == "unsat":
        return False
    if smt.solve(cn + [nc], 1.5).status == "unsat":
        return True
    if smt.solve(cn + [c], 1.5).status == "unsat":
        return False
    return None


def prove(pc, node, lemmas, opts, depth=0):
    """-> (status, model). status proved | refuted | unknown"""
    if node.op == "true":
        return "proved", None
    conds = []
    if depth < 8:
        simp, split, conds = S.simplify_ites(node, lambda c: entailed(pc, c, opts))
        if simp is not None:
            node = simp
            if split:
                return prove_cases(pc, node, split[0], lemmas, opts, depth)
    if node.op == "true":
        return "proved", None
    ng = S.not_(node)
    c = smt.cone(pc, [node])
    to = opts.get("goal_timeout", 8.0)
    model = None
    order = opts.get("strategies", STRATS)
    r = smt.solve(c + [ng], min(to, 1.0), order[:1])
    if r.status == "unsat":
        return "proved", None
    if r.status == "sat":
        model = r.model
    lem = [l for l in lemmas]
    has_tr = any(n.op in ("exp", "log") for n in S.topo([node]))
    if lem or (has_tr and node.op != "eq" and opts.get("auto_lemmas", True)):
        al = auto_lemmas([node]) if opts.get("auto_lemmas", True) else []
        for extra in ([lem] if lem else []) + ([lem + al] if al else []):
            cl = smt.cone(pc, [node] + extra)
            r2 = smt.solve(cl + extra + [ng], to, order)
            if r2.status == "unsat":
                return "proved", None
            if r2.status == "sat" and r2.model is not None:
                model = r2.model
    if r.status == "unknown":
        if c and smt.solve([ng], min(to, 1.0), order[:1]).status == "unsat":
            return "proved", None
        if conds and depth < 8:
            left = smt.ite_conditions(node)
            if left and len(left) <= 8:
                return prove_cases(pc, node, left[0], lemmas, opts, depth)
        r = smt.solve(c + [ng], to, order)
        if r.status == "unsat":
            return "proved", None
        if r.status == "sat" and r.model is not None:
            model = r.model
    return ("refuted" if model is not None else "unknown"), model


def prove_cases(pc, node, c, lemmas, opts, depth):
    for lit in (c, S.not_(c)):
        st, model = prove(pc + [lit], node, lemmas, opts, depth + 1)
        if st != "proved":
            if smt.solve(smt.cone(pc, [lit]) + [lit], 2.0).status == "unsat":
                continue
            return st, model
    return "proved", None


def discharge(job, out, p, rng, deadline):
    ctx = p.ctx
    opts = job.opts
    okay = True
    # definedness of branch conditions and of the checked terms
    done = set()
    obligations = []
    if opts.get("definedness", True):
        for i, lit in enumerate(ctx.pc):
            if lit.partial:
                for d in S.definedness([lit]):
                    if d.id not in done:
                        done.add(d.id)
                        obligations.append((ctx.pc[:i], d, X.Goal("defined", d, i, [], -1)))
        for g in ctx.goals:
            if g.node.partial:
                for d in S.definedness([g.node]):
                    if (d.id, g.npc) not in done and d.id not in done:
                        done.add((d.id, g.npc))
                        obligations.append((ctx.pc[:g.npc], d, X.Goal("defined: " + g.label, d, g.npc, g.lemmas, -1)))
    for g in ctx.goals:
        obligations.append((ctx.pc[:g.npc], g.node, g))
    for pc, node, g in obligations:
        if time.time() > deadline:
            raise Deadline()
        if g.seq >= 0:
            out.goals += 1
            out.goal_labels.add(g.label.split("[")[0])
        else:
            out.definedness += 1
        st, model = prove(pc, node, g.lemmas, opts)
        if st == "proved":
            out.discharged += 1
            continue
        # a model of the relevant part of the path condition says nothing about the rest of it
        full = smt.solve(list(pc) + list(g.lemmas) + [S.not_(node)], 8.0, STRATS)
        if full.status == "unsat":
            out.discharged += 1
            continue
        merged = dict(model or {})
        merged.update(full.model or {})
        if confirm(job, out, p, merged or model, g.label, None, rng, goal=g):
            return False
        if full.model and model and confirm(job, out, p, model, g.label, None, rng, goal=g, tries=20):
            return False
        # is the whole path impossible?
        r = smt.solve(ctx.pc, 10.0, STRATS)
        if r.status == "unsat":
            out.discharged += 1
            continue
        if not out.problems and concretise(job, out, p, merged or model, g.label, rng, goal=g if g.seq >= 0 else None):
            return False
        okay = False
        out.problems.append(f"{'counterexample not reproduced' if st == 'refuted' else 'not decided'}: {g.label}: {S.show(node)[:300]}")
        if len(out.problems) > 5:
            raise X.Limit("too many open obligations")
    return okay
