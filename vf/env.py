"""The two backends a harness runs on: symbolic (SymEnv) and concrete on the untouched code (ConcEnv)."""
import builtins
import copy
import math
import os
import random
import sys
import types
from fractions import Fraction

import numpy as rnp

from . import arr as A
from . import npshim as N
from . import sym as S
from .sym import EngineError, PathAbort, Sym, SymBool


class AssumeFailed(Exception):
    pass


class HarnessBug(Exception):
    pass


class Base:
    symbolic = False

    def reals(self, name, shape, **k):
        if isinstance(shape, int):
            shape = (shape,)
        out = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(shape):
            out[i] = self.real(name + "_" + "_".join(map(str, i)), **k)
        return self.arr(out)

    def posreals(self, name, shape, **k):
        k.setdefault("lo", 0)
        k.setdefault("lo_strict", True)
        return self.reals(name, shape, **k)

    def pos(self, name, **k):
        return self.real(name, lo=0, lo_strict=True, **k)

    def sum(self, xs):
        r = None
        for x in xs:
            r = x if r is None else r + x
        return 0.0 if r is None else r

    def prod(self, xs):
        r = None
        for x in xs:
            r = x if r is None else r * x
        return 1.0 if r is None else r

    def choice(self, name, options):
        i = self.index(name, len(options))
        return options[i]


# ------------------------------------------------------------------ symbolic
class SymEnv(Base):
    symbolic = True

    def __init__(self, ctx, loaded):
        self.ctx = ctx
        self.L = loaded
        self.np = loaded.np
        N.HOOKS.clear()

    def fresh_modules(self):
        from . import loader
        self.L = loader.Loaded()
        self.np = self.L.np

    def mod(self, name):
        return self.L.get(name)

    # inputs
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, sample=None):
        return self.ctx.newvar(name, lo=lo, hi=hi, lo_strict=lo_strict, hi_strict=hi_strict)

    def int(self, name, lo=None, hi=None):
        return self.ctx.newvar(name, lo=lo, hi=hi, isint=True)

    def index(self, name, n):
        v = self.ctx.newvar(name, lo=0, hi=n - 1, isint=True)
        return self.ctx.concretize(v)

    def ints(self, name, shape, lo=None, hi=None, sample=None):
        """an integer array (any integers within the limits)."""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = rnp.empty(shape, dtype=object)
        for j, i in enumerate(rnp.ndindex(shape)):
            out[i] = A.toreal(self.ctx.newvar(f"{name}_{j}", lo=lo, hi=hi, isint=True))
        return out.view(A.IntArr)

    def floats(self, a):
        """the same numbers in an array of reals."""
        return a.astype(float)

    def bool(self, name):
        v = S.boolvar(name)
        self.ctx.vars[name] = v
        return v

    def flag(self, name):
        return bool(self.bool(name))

    def arr(self, x):
        return A.mkarr(x)

    def vec(self, *xs):
        return A.mkarr(list(xs))

    def assume(self, c):
        if isinstance(c, rnp.ndarray):
            for x in A.as_base(c).flat:
                self.ctx.assume(x)
            return
        self.ctx.assume(c)

    def lemma(self, c):
        """a universally valid fact offered to the solver."""
        self.ctx.lemmas.append(S.tobool(c))

    # math
    @property
    def pi(self):
        return S.PI

    def exp(self, x): return S.exp(S.lift(x))
    def log(self, x): return S.log(S.lift(x))
    def sqrt(self, x): return S.power(S.lift(x), S.const(Fraction(1, 2)))
    def cos(self, x): return S.cos(S.lift(x))
    def sin(self, x): return S.sin(S.lift(x))
    def pow(self, x, y): return S.power(S.lift(x), S.lift(y))
    def abs(self, x): return S.abs_(S.lift(x))
    def floor(self, x): return S.floor_(S.lift(x))
    def max(self, xs):
        r = None
        for x in xs:
            r = S.lift(x) if r is None else S.max2(r, x)
        return r
    def min(self, xs):
        r = None
        for x in xs:
            r = S.lift(x) if r is None else S.min2(r, x)
        return r
    def ite(self, c, a, b): return S.ite(c, a, b)
    def frac(self, a, b=1): return S.const(Fraction(a, b))
    def isnan(self, x): return isinstance(x, float) and math.isnan(x)
    def and_(self, *xs): return S.and_(*xs)
    def or_(self, *xs): return S.or_(*xs)
    def not_(self, x): return S.not_(S.tobool(x))
    def implies(self, a, b): return S.implies(a, b)

    # checks
    def check(self, cond, label):
        if isinstance(cond, rnp.ndarray):
            for i, x in enumerate(A.as_base(cond).flat):
                self.ctx.goal(S.tobool(x), f"{label}[{i}]")
            return
        self.ctx.goal(S.tobool(cond), label)

    def _pairs(self, a, b, label):
        if isinstance(a, (rnp.ndarray, list, tuple)) or isinstance(b, (rnp.ndarray, list, tuple)):
            x, y = A.as_base(a), A.as_base(b)
            if x.shape != y.shape:
                self.ctx.goal(S.FALSE, f"{label}: shape {x.shape} != {y.shape}")
                return
            for i in rnp.ndindex(x.shape):
                yield x[i], y[i], f"{label}{list(i)}"
        else:
            yield A.norm_elem(a), A.norm_elem(b), label

    def eq(self, a, b, label, tol=None):
        for x, y, l in self._pairs(a, b, label):
            self.ctx.obs.append((l, x))
            if isinstance(x, float) or isinstance(y, float):
                same = isinstance(x, float) and isinstance(y, float) and (x == y or (math.isnan(x) and math.isnan(y)))
                self.ctx.goal(S.TRUE if same else S.FALSE, l)
                continue
            if isinstance(x, SymBool) or isinstance(y, SymBool):
                x, y = S.tobool(x), S.tobool(y)
                self.ctx.goal(S.not_(x ^ y), l)
                continue
            self.ctx.goal(_eqnode(x, y), l)

    def le(self, a, b, label, tol=None):
        for x, y, l in self._pairs(a, b, label):
            self.ctx.obs.append((l, x))
            self.ctx.goal(S.le(x, y), l)

    def lt(self, a, b, label, tol=None):
        for x, y, l in self._pairs(a, b, label):
            self.ctx.goal(S.lt(x, y), l)

    def raises(self, excs, f, *a, **k):
        try:
            f(*a, **k)
        except EngineError:
            raise
        except excs:
            return True
        return False

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except EngineError:
            raise
        except Exception as e:
            return None, e

    def snapshot(self, x):
        return copy.deepcopy(x) if not isinstance(x, A.SymArray) else x.copy()

    def unchanged(self, x, snap, label):
        b, s = A.as_base(x), A.as_base(snap)
        if b.shape != s.shape:
            self.ctx.goal(S.FALSE, label + ": shape changed")
            return
        for i in rnp.ndindex(b.shape):
            if b[i] is not s[i]:
                self.eq(b[i], s[i], f"{label}{list(i)}")
        if b.size == 0 or all(b[i] is s[i] for i in rnp.ndindex(b.shape)):
            self.ctx.goal(S.TRUE, label)

    def grad(self, f, xs):
        """derivatives of f(list) with respect to each x; returns (value, d) with d of shape value.shape + (n,)."""
        val = f(list(xs))
        b = A.as_base(val)
        out = rnp.empty(b.shape + (len(xs),), dtype=object)
        for i in rnp.ndindex(b.shape):
            for j, x in enumerate(xs):
                out[i + (j,)] = S.diff(b[i], x)
        return val, A.wrap(out)

    def hook(self, name, f):
        N.HOOKS[name] = f

    def holds(self, c):
        """force a truth value (forks)."""
        return bool(c)

    def probe(self, xs):
        """floats of some terms at one fixed input (to pair up lists whose order is free; decides nothing)."""
        vals = {}
        for name, v in self.ctx.vars.items():
            r = random.Random("probe" + name)
            vals[name] = self.ctx.alive[0].env.get(name) if self.ctx.alive else None
            if vals[name] is None:
                vals[name] = (r.random() < 0.5) if v.op == "bvar" else r.uniform(0.3, 3)
        nodes = [S.lift(x) for x in xs]
        return S.evalf(nodes, vals)

    def fact(self, c, timeout=5.0, keep=True):
        """True if the solver proves c here (then it is available to later queries). Never forks, asserts nothing."""
        return self.ctx.fact(c, timeout, keep)


def _eqnode(x, y):
    if x is y and not x.partial:
        return S.TRUE
    d = S._constdiff(x, y)
    if d is not None:
        return S.TRUE if d == 0 else S.FALSE
    return S._mk(SymBool, "eq", (x, y))


# ------------------------------------------------------------------ concrete
class ConcModules:
    """The real code of /repo/bfit with real numpy, only the listed external entry points replaced."""

    def __init__(self):
        self.hooks = {}
        self.mods = {}

    def get(self, name):
        from . import loader
        if name in self.mods:
            return self.mods[name]
        path = loader.source_path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        m = types.ModuleType("bfit." + name)
        m.__file__ = path
        m.__package__ = "bfit"
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__dict__["__import__"] = self._import
        if "open" in self.hooks:
            b.__dict__["open"] = self.hooks["open"]
        b.__dict__["print"] = self._print
        m.__dict__["__builtins__"] = b
        self.mods[name] = m
        exec(compile(open(path, encoding="utf8").read(), path, "exec"), m.__dict__)
        return m

    def _print(self, *a, **k):
        if "print" in self.hooks:
            self.hooks["print"](*a, **k)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or "bfit"
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "bfit":
            p = types.ModuleType("bfit")
            for f in fromlist or ():
                setattr(p, f, self.get(f))
            return p
        if name.startswith("bfit."):
            m = self.get(name.split(".", 1)[1])
            if fromlist:
                return m
            p = types.ModuleType("bfit")
            setattr(p, name.split(".")[1], m)
            return p
        real = builtins.__import__(name, globals, locals, fromlist, level)
        if name == "scipy.optimize" and fromlist:
            return self._opt()
        if name in ("scipy", "scipy.optimize"):
            import scipy
            p = types.ModuleType("scipy")
            p.__dict__.update(scipy.__dict__)
            p.__getattr__ = lambda n: getattr(scipy, n)
            p.optimize = self._opt()
            return p
        return real

    def _opt(self):
        import scipy.optimize as so
        p = types.ModuleType("scipy.optimize")
        p.__dict__.update(so.__dict__)
        for n in ("minimize", "nnls"):
            p.__dict__[n] = self._dispatch(n, getattr(so, n))
        return p

    def _dispatch(self, name, real):
        def f(*a, **k):
            return self.hooks.get(name, real)(*a, **k)
        return f


class ConcEnv(Base):
    symbolic = False

    def __init__(self, values=None, rng=None, partial=False):
        self.values = dict(values or {})
        self.rng = rng or random.Random(0)
        self.used = {}
        self.failures = []
        self.obs = []
        self.nchecks = 0
        self.C = ConcModules()
        self.np = rnp
        self.mode = self.rng.random()

    def fresh_modules(self):
        h = self.C.hooks
        self.C = ConcModules()
        self.C.hooks = h

    def mod(self, name):
        return self.C.get(name)

    def _val(self, name, gen):
        v = self.values.get(name)
        if v is None:
            v = gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, sample=None):
        def gen():
            if sample is not None:
                return float(self.rng.uniform(*sample))
            if lo is not None and hi is not None:
                return float(self.rng.uniform(float(lo), float(hi)))
            if lo is not None:
                if not lo_strict and self.rng.random() < 0.12:
                    return float(lo)
                return float(lo) + self.rng.choice([0.2, 1.0, 1.0, 2.5]) * (0.05 + self.rng.random())
            if hi is not None:
                return float(hi) - (0.05 + self.rng.random())
            if self.rng.random() < 0.08:
                return float(self.rng.choice([0, 1, -1]))
            return self.rng.choice([-1, 1, 1]) * (0.05 + 1.7 * self.rng.random())
        return float(self._val(name, gen))

    def int(self, name, lo=None, hi=None):
        return int(self._val(name, lambda: self.rng.randint(lo if lo is not None else -5, hi if hi is not None else 9)))

    def ints(self, name, shape, lo=None, hi=None, sample=None):
        shape = (shape,) if isinstance(shape, builtins.int) else tuple(shape)
        n = builtins.int(rnp.prod(shape))
        lo, hi = sample if sample else (-4 if lo is None else lo, 5 if hi is None else hi)
        return rnp.array([builtins.int(self._val(f"{name}_{j}", lambda: self.rng.randint(lo, max(lo, hi)))) for j in range(n)], dtype=builtins.int).reshape(shape)

    def floats(self, a):
        return a.astype(float)

    def index(self, name, n):
        return int(self._val(name, lambda: self.rng.randrange(n)))

    def bool(self, name):
        return bool(self._val(name, lambda: self.rng.random() < 0.5))

    flag = bool

    def arr(self, x):
        return rnp.array(x, dtype=float)

    def vec(self, *xs):
        return rnp.array([float(x) for x in xs])

    def assume(self, c):
        if isinstance(c, rnp.ndarray):
            c = c.all()
        if not c:
            raise AssumeFailed()

    def lemma(self, c):
        pass

    pi = math.pi

    def exp(self, x): return rnp.exp(x)
    def log(self, x):
        with rnp.errstate(all="ignore"):
            return rnp.log(x)
    def sqrt(self, x): return rnp.sqrt(x)
    def cos(self, x): return rnp.cos(x)
    def sin(self, x): return rnp.sin(x)
    def pow(self, x, y): return rnp.power(rnp.float64(x), y)
    def abs(self, x): return abs(x)
    def floor(self, x): return math.floor(x)
    def max(self, xs): return max(xs)
    def min(self, xs): return min(xs)
    def ite(self, c, a, b): return a if c else b
    def frac(self, a, b=1): return a / b
    def isnan(self, x): return bool(rnp.isnan(x))
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def holds(self, c): return bool(c)
    def fact(self, c, timeout=5.0, keep=True): return False
    def probe(self, xs): return [float(x) for x in xs]

    def _fail(self, label, detail):
        self.failures.append((label, detail))

    def check(self, cond, label):
        self.nchecks += 1
        c = rnp.asarray(cond)
        if not c.all():
            self._fail(label, "condition is false")

    def _cmp(self, a, b, label, ok):
        try:
            x = rnp.asarray(a, dtype=float)
            y = rnp.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.nchecks += 1
            self._fail(label, f"not numeric: {e}")
            return
        self.nchecks += 1
        if x.shape != y.shape and x.size == 1 and y.size == 1 and not (isinstance(a, (rnp.ndarray, list, tuple)) or isinstance(b, (rnp.ndarray, list, tuple))):
            x, y = x.reshape(()), y.reshape(())
        if x.shape != y.shape:
            self._fail(label, f"shape {x.shape} != {y.shape}")
            return
        for i in rnp.ndindex(x.shape):
            self.obs.append((f"{label}{list(i)}" if isinstance(a, (rnp.ndarray, list, tuple)) or isinstance(b, (rnp.ndarray, list, tuple)) else label, float(x[i])))
            if not ok(float(x[i]), float(y[i])):
                self._fail(label, f"at {list(i)}: got {float(x[i])!r}, expected {float(y[i])!r}")
                return

    def eq(self, a, b, label, tol=1e-7):
        tol = tol or 1e-7

        def ok(x, y):
            if math.isnan(x) or math.isnan(y):
                return math.isnan(x) and math.isnan(y)
            if math.isinf(y) and not math.isinf(x):
                raise AssumeFailed()    # the oracle's own floats overflowed or underflowed: nothing can be said
            if math.isinf(x) or math.isinf(y):
                return x == y
            if A.SINGLE_USED[0] and tol <= 1e-7:
                return abs(x - y) <= 1e-12 + 1e-9 * max(abs(x), abs(y))
            return abs(x - y) <= 1e-10 + tol * max(abs(x), abs(y)) + (tol if tol > 1e-6 else 0)
        self._cmp(a, b, label, ok)

    def le(self, a, b, label, tol=1e-9):
        tol = tol or 1e-9
        self._cmp(a, b, label, lambda x, y: x <= y + tol * max(1.0, abs(x), abs(y)))

    def lt(self, a, b, label, tol=1e-9):
        self.nchecks += 1
        if not (float(a) < float(b) + 1e-12):
            self._fail(label, f"{a!r} not below {b!r}")

    def raises(self, excs, f, *a, **k):
        try:
            f(*a, **k)
        except excs:
            return True
        return False

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def snapshot(self, x):
        return copy.deepcopy(x)

    def unchanged(self, x, snap, label):
        self.nchecks += 1
        a, b = rnp.asarray(x), rnp.asarray(snap)
        if a.shape != b.shape or a.tobytes() != b.tobytes():
            self._fail(label, "argument was modified")

    def grad(self, f, xs):
        xs = [float(x) for x in xs]
        val = f(list(xs))
        v = rnp.asarray(val, dtype=float)
        out = rnp.zeros(v.shape + (len(xs),))
        for j, x in enumerate(xs):
            h = 1e-4 * max(0.1, abs(x))

            def at(t):
                y = list(xs)
                y[j] = t
                return rnp.asarray(f(y), dtype=float)
            d1 = (at(x + h) - at(x - h)) / (2 * h)
            d2 = (at(x + h / 2) - at(x - h / 2)) / h
            out[..., j] = d = (4 * d2 - d1) / 3
            # a difference quotient drowned by rounding says nothing
            with rnp.errstate(all="ignore"):
                err = 1e-15 * rnp.abs(v) / h + rnp.abs(d - d2) * 1e-2
                bad = (err > 1e-5 * rnp.maximum(1, rnp.abs(d))) & rnp.isfinite(d)
            self.assume(not bad.any())
        return val, out

    def hook(self, name, f):
        self.C.hooks[name] = f
