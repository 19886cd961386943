"""Path exploration by re-execution with recorded decisions; branch feasibility decided by the solver."""
import traceback
from fractions import Fraction

from . import smt
from . import sym as S
from .sym import EngineError, PathAbort, Sym, SymBool


class Limit(Exception):
    pass


class Goal:
    __slots__ = ("label", "node", "npc", "lemmas", "hint", "seq")

    def __init__(self, label, node, npc, lemmas, seq):
        self.label, self.node, self.npc, self.lemmas, self.seq = label, node, npc, lemmas, seq


class Ctx:
    """Execution context of one path."""

    def __init__(self, prefix, opts):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pcids = {}
        self.opts = opts
        self.pending = []
        self.counter = {}
        self.goals = []
        self.obs = []
        self.lemmas = []
        self.vars = {}
        self.engine_errors = []
        self.branches = 0
        self.unknown_branches = 0
        self.witnessed = 0
        self.no_decide = False
        # known inputs that follow this path so far: witnesses of satisfiability, nothing else
        self.alive = [S.Sample(v) for v in opts.get("samples", ())]

    # ---- literals
    def add(self, lit):
        if lit.op == "and":
            for x in lit.args:
                self.add(x)
            return
        if lit.op == "not" and lit.args[0].op == "or":
            for x in lit.args[0].args:
                self.add(S.not_(x))
            return
        if lit.op == "true" or lit.id in self.pcids:
            return
        self.pc.append(lit)
        self.pcids[lit.id] = True
        self.pcids[S.not_(lit).id] = False
        if self.alive:
            self.alive = [s for s in self.alive if s.holds(lit)]

    def feasible(self, lit, timeout=None):
        for s in self.alive:
            if s.holds(lit):
                self.witnessed += 1
                return "sat"
        c = smt.cone(self.pc, [lit])
        r = smt.solve(c + [lit], timeout or self.opts.get("branch_timeout", 4.0))
        return r.status

    def known(self, node):
        if node.op == "true":
            return True
        if node.op == "false":
            return False
        v = self.pcids.get(node.id)
        if v is not None:
            return v
        if node.op == "not":
            k = self.known(node.args[0])
            return None if k is None else not k
        if node.op == "and":
            ks = [self.known(x) for x in node.args]
            if any(k is False for k in ks):
                return False
            return True if all(k is True for k in ks) else None
        if node.op == "or":
            ks = [self.known(x) for x in node.args]
            if any(k is True for k in ks):
                return True
            return False if all(k is False for k in ks) else None
        return None

    def branch(self, node):
        k = self.known(node)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add(node if v else S.not_(node))
            return v
        t = self.feasible(node)
        f = self.feasible(S.not_(node)) if t != "unsat" else "sat"
        if t == "unsat" and f == "unsat":
            raise PathAbort("infeasible")
        if t == "unknown" or f == "unknown":
            self.unknown_branches += 1
        if t == "unsat":
            v = False
        elif f == "unsat":
            v = True
        else:
            v = True
            self.branches += 1
            self.pending.append(self.trace + [False])
        self.trace.append(v)
        self.add(node if v else S.not_(node))
        if len(self.trace) > self.opts.get("max_decisions", 4000):
            raise Limit("too many decisions on one path")
        return v

    def decide(self, node):
        """simplify a condition if the path condition determines it; no fork."""
        k = self.known(node)
        if k is None and not self.no_decide:
            t = self.feasible(node, 1.5)
            if t == "unsat":
                k = False
            else:
                f = self.feasible(S.not_(node), 1.5)
                if f == "unsat":
                    k = True
        if k is None:
            return node
        return S.TRUE if k else S.FALSE

    def concretize(self, node):
        """fork over the values of an integer term."""
        tried = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                r = smt.solve(self._model_query(node), 5.0)
                if r.status == "unsat":
                    raise PathAbort("infeasible")
                v = self._value(node, r)
            lit = S.eq(node, S.const(v if not isinstance(v, tuple) else v[1]))
            if isinstance(v, tuple):      # ("ne", value) in a prefix
                self.trace.append(v)
                self.add(S.not_(lit))
                continue
            if i >= len(self.prefix):
                if self.feasible(S.not_(lit)) != "unsat":
                    self.pending.append(self.trace + [("ne", v)])
                    self.branches += 1
                tried += 1
                if tried > 64:
                    raise Limit("too many integer values")
            self.trace.append(v)
            self.add(lit)
            return int(v)

    def _model_query(self, node):
        t = _touch(node)
        return smt.cone(self.pc, [t]) + [t]

    def _value(self, node, r):
        if r.model is None:
            raise EngineError("no model for an integer value")
        env = {}
        for n in S.topo([node]):
            if n.op == "var" and n is not S.PI:
                x = r.model.get(n.id)
                if x is None:
                    lo, hi = n.data[1], n.data[3]
                    x = lo if lo is not None else (hi if hi is not None else Fraction(0))
                env[n.data[0]] = x
        v = S.evalf([node], env)[0]
        if v != v:
            v = 0
        v = int(v)
        lit = S.eq(node, S.const(v))
        if self.feasible(lit) == "unsat":
            # bounds of the model were not part of the query: search small values
            for w in range(-64, 65):
                if self.feasible(S.eq(node, S.const(w))) == "sat":
                    return w
            raise EngineError("cannot concretise an integer")
        return v

    def fresh(self, prefix, lo=None, hi=None, isint=False):
        k = self.counter.get(prefix, 0)
        self.counter[prefix] = k + 1
        return self.newvar(f"{prefix}#{k}", lo=lo, hi=hi, isint=isint)

    def newvar(self, name, **k):
        v = S.var(name, **k)
        self.vars[name] = v
        return v

    def assume(self, cond):
        cond = S.tobool(cond)
        k = self.known(cond)
        if k is True:
            return
        if k is False:
            raise PathAbort("assumption")
        if len(self.trace) >= len(self.prefix) and self.feasible(cond) == "unsat":
            raise PathAbort("assumption")
        self.add(cond)

    def fact(self, node, timeout=5.0, keep=True):
        """add node to the path condition if the solver proves it from the path condition; the outcome is part of the path."""
        node = S.tobool(node)
        k = self.known(node)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = smt.solve(smt.cone(self.pc, [node]) + [S.not_(node)], timeout).status == "unsat"
        self.trace.append(v)
        if v and keep:
            self.add(node)
        elif v:
            self.lemmas.append(node)
        return v

    def goal(self, node, label):
        self.goals.append(Goal(label, node, len(self.pc), list(self.lemmas), len(self.goals)))


def _touch(node):
    """a trivially true literal mentioning the variables of node (to pull in their constraints)."""
    return S._mk(SymBool, "le", (node, S.add(node, S.ONE)))


class Path:
    __slots__ = ("ctx", "exc", "tb", "result")


def explore(fn, opts):
    """Run fn(ctx) over all paths. Yields Path objects."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > opts.get("max_paths", 2000):
            raise Limit(f"more than {opts.get('max_paths', 2000)} paths")
        ctx = Ctx(prefix, opts)
        S.set_ctx(ctx)
        p = Path()
        p.ctx, p.exc, p.tb, p.result = ctx, None, None, "done"
        try:
            fn(ctx)
        except PathAbort:
            p.result = "cut"
        except EngineError:
            raise
        except (Limit, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:      # noqa: the code under test raised
            p.exc = e
            p.tb = traceback.format_exc()
            p.result = "exception"
        finally:
            S.set_ctx(None)
        stack.extend(ctx.pending)
        yield p
