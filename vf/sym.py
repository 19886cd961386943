"""Symbolic scalars: hash-consed term DAG over exact reals/integers/booleans, with forking booleans."""
import math
import numbers
from fractions import Fraction

import numpy as rnp  # the real numpy


class EngineError(Exception):
    """The engine cannot represent what the code does (never a verdict about the code)."""


class PathAbort(BaseException):
    """Current path is infeasible / cut."""


CTX = None  # current execution context (explore.Ctx) or None


def set_ctx(c):
    global CTX
    CTX = c


def get_ctx():
    return CTX


# ----------------------------------------------------------------- number recognition
_simple_cache = {}


def _simplest_between(lo, hi):
    """Simplest fraction in the closed interval [lo, hi], 0 < lo <= hi (Stern-Brocot by continued fractions)."""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def simplest_rational(x):
    """The short decimal or else the simplest rational that rounds to the float x."""
    if x == 0:
        return Fraction(0)
    f = Fraction(x)
    if f.denominator == 1 and abs(f) < 2**53:
        return f
    txt = repr(float(x))
    if sum(ch.isdigit() for ch in txt.split("e")[0].replace(".", "").strip("-0")) <= 12:
        return Fraction(txt)          # a short decimal literal means that decimal
    a = abs(f)
    u = Fraction(math.ulp(abs(x))) / 2
    return _simplest_between(a - u * Fraction(499, 500), a + u * Fraction(499, 500)) * (1 if f > 0 else -1)


def _ld_simplest(v):
    """simplest rational for a longdouble that is not a double."""
    m, e = rnp.frexp(v)
    n = int(m * rnp.longdouble(2)**64)
    f = Fraction(n) * Fraction(2)**(int(e) - 64)
    a = abs(f)
    u = Fraction(2)**(int(e) - 65)
    return _simplest_between(a - u * 2, a + u * 2) * (1 if f > 0 else -1)


def recognise(x):
    """float -> term. Floats stand for the simplest real that rounds to them; multiples of powers of pi are kept exact."""
    key = float(x)
    t = _simple_cache.get(key)
    if t is not None:
        return t
    q = simplest_rational(key)
    t = None
    if q.denominator > 10**7 or abs(q.numerator) > 10**12:
        ax = abs(key)
        for k2 in (2, 4, 1, 3, -2, -1, -3, 6, -4, 5, -6, -5):
            base = math.pi ** (k2 / 2.0)
            r = ax / base
            s = Fraction(r).limit_denominator(400)
            if s != 0 and s.numerator < 4000 and abs(float(s) * base - ax) <= 3 * math.ulp(ax):
                t = mul(const(s if key > 0 else -s), power(PI, const(Fraction(k2, 2))))
                break
    if t is None:
        t = const(q)
    _simple_cache[key] = t
    return t


# ----------------------------------------------------------------- nodes
_table = {}
_ids = [0]


class Node:
    __slots__ = ("op", "args", "id", "data", "partial", "isint", "__weakref__")


def _mk(cls, op, args, data=None, isint=False, partial=False):
    key = (cls, op, tuple(a.id for a in args), data)
    n = _table.get(key)
    if n is not None:
        return n
    n = object.__new__(cls)
    n.op = op
    n.args = args
    n.data = data
    _ids[0] += 1
    n.id = _ids[0]
    n.partial = partial or any(a.partial for a in args)
    n.isint = isint
    _table[key] = n
    return n


def reset_table():
    """Forget all terms (keeps constants consistent by also clearing caches)."""
    _table.clear()
    _simple_cache.clear()
    global PI, ZERO, ONE, TRUE, FALSE
    PI = var("PI!", lo=Fraction(314159265358979, 10**14), hi=Fraction(314159265358980, 10**14))
    ZERO, ONE = const(0), const(1)
    TRUE, FALSE = _mk(SymBool, "true", ()), _mk(SymBool, "false", ())


def is_special(x):
    return isinstance(x, (float, rnp.floating)) and not math.isfinite(float(x))


def lift(x):
    """python/numpy number or Sym -> Sym (specials nan/inf are returned as python floats)."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return ite(x, ONE, ZERO)
    if isinstance(x, (bool, rnp.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, rnp.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, rnp.longdouble):
        d = float(x)
        if not math.isfinite(d):
            return d
        if rnp.longdouble(d) == x:
            return recognise(d)
        return const(_ld_simplest(x))
    if isinstance(x, (float, rnp.floating)):
        f = float(x)
        if not math.isfinite(f):
            return f
        if isinstance(x, (rnp.float32, rnp.float16)):
            return const(Fraction(f))
        return recognise(f)
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (complex, rnp.complexfloating)) and x.imag == 0:
        return lift(x.real)
    raise EngineError(f"cannot lift {type(x)} to a symbolic number")


def const(q, isint=None):
    if not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk(Sym, "const", (), q, isint=(q.denominator == 1) if isint is None else isint)


class Sym(Node):
    """Symbolic number."""
    __slots__ = ()
    __array_priority__ = 1000
    __hash__ = object.__hash__

    # --- numpy-scalar-like attributes
    shape = ()
    ndim = 0
    size = 1
    dtype = rnp.dtype(object)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def T(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    def item(self, *a):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        from .arr import cast_scalar
        return cast_scalar(self, dt)

    def sum(self, *a, **k):
        return self
    mean = max = min = ravel = squeeze = sum

    def reshape(self, *shape):
        from .arr import mkarr
        return mkarr([self]).reshape(*shape)

    def flatten(self):
        from .arr import mkarr
        return mkarr([self])

    def is_integer(self):
        if self.op == "const":
            return self.data.denominator == 1
        if self.isint:
            return True
        raise EngineError("is_integer on symbolic real")

    # --- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, (rnp.ndarray, list, tuple)) and not (isinstance(o, rnp.ndarray) and o.ndim == 0):
            return NotImplemented
        try:
            b = lift(o)
        except EngineError:
            return NotImplemented
        return f(b, self) if rev else f(self, b)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, div, True)
    def __floordiv__(self, o): return self._bin(o, floordiv)
    def __rfloordiv__(self, o): return self._bin(o, floordiv, True)
    def __mod__(self, o): return self._bin(o, mod)
    def __rmod__(self, o): return self._bin(o, mod, True)
    def __divmod__(self, o): return self._bin(o, floordiv), self._bin(o, mod)
    def __rdivmod__(self, o): return self._bin(o, floordiv, True), self._bin(o, mod, True)
    def __pow__(self, o, m=None): return self._bin(o, power)
    def __rpow__(self, o): return self._bin(o, power, True)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)
    def __lt__(self, o): return self._bin(o, lt)
    def __gt__(self, o): return self._bin(o, lambda a, b: lt(b, a))
    def __le__(self, o): return self._bin(o, le)
    def __ge__(self, o): return self._bin(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._bin(o, eq)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._bin(o, eq)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(not_(eq(self, ZERO)))

    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return power(self, const(Fraction(1, 2)))
    def square(self): return mul(self, self)
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def __floor__(self): return floor_(self)
    def __ceil__(self): return ceil_(self)
    def floor(self): return floor_(self)
    def ceil(self): return ceil_(self)
    def rint(self): return rint_(self)

    def __round__(self, nd=None):
        if nd in (None, 0):
            return rint_(self)
        raise EngineError("round with digits")

    def __trunc__(self):
        return trunc_(self)

    def __float__(self):
        if self.op == "const":
            return float(self.data)
        raise EngineError("float() of a symbolic value reached C code")

    def __int__(self):
        return self.__index__()

    def __index__(self):
        if self.op == "const":
            if self.data.denominator == 1:
                return int(self.data)
            return int(self.data)
        if self.isint:
            return CTX.concretize(self)
        raise EngineError("int() of a symbolic real reached C code")

    def __format__(self, spec):
        return shown(self) or "<sym>"

    def __repr__(self):
        return show(self)

    def __str__(self):
        return shown(self) or show(self)

    def __reduce__(self):
        raise EngineError("pickling a symbolic value")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SymBool(Node):
    __slots__ = ()
    __hash__ = object.__hash__
    shape = ()
    ndim = 0
    size = 1
    dtype = rnp.dtype(object)

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        if CTX is None:
            raise EngineError("symbolic branch outside an exploration")
        return CTX.branch(self)

    def _b(self, o):
        if isinstance(o, SymBool):
            return o
        if isinstance(o, (bool, rnp.bool_)):
            return TRUE if o else FALSE
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else and_(self, b)
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else or_(self, b)
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else or_(and_(self, not_(b)), and_(not_(self), b))
    __rxor__ = __xor__

    def __invert__(self): return not_(self)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def item(self): return self
    def astype(self, dt, *a, **k): return ite(self, ONE, ZERO) if rnp.dtype(dt) != bool else self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            return self._num() == o
        return not_(self ^ b)

    def __ne__(self, o):
        b = self._b(o)
        if b is None:
            return self._num() != o
        return self ^ b

    def _num(self): return ite(self, ONE, ZERO)
    def __add__(self, o): return self._num() + (o._num() if isinstance(o, SymBool) else o)
    __radd__ = __add__
    def __sub__(self, o): return self._num() - (o._num() if isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * (o._num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._num() / o
    def __lt__(self, o): return self._num() < o
    def __gt__(self, o): return self._num() > o
    def __le__(self, o): return self._num() <= o
    def __ge__(self, o): return self._num() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __repr__(self): return show(self)
    def __format__(self, spec): return shown(self) or "<symbool>"
    def __str__(self): return shown(self) or show(self)


def shown(x):
    """text of a printed term, when the harness reads what is printed."""
    from .npshim import HOOKS
    return HOOKS["format"](x) if "format" in HOOKS else None


# ----------------------------------------------------------------- constructors with light simplification
def var(name, lo=None, hi=None, lo_strict=False, hi_strict=False, isint=False):
    """data: (name, lo, lo_strict, hi, hi_strict)"""
    lo = None if lo is None else Fraction(lo)
    hi = None if hi is None else Fraction(hi)
    return _mk(Sym, "var", (), (name, lo, lo_strict, hi, hi_strict), isint=isint)


def boolvar(name):
    return _mk(SymBool, "bvar", (), name)


def isc(a):
    return a.op == "const"


def _special2(a, b, f):
    """arithmetic with a non-finite python float on one side; symbolic operand is finite."""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with rnp.errstate(all="ignore"):
            return float(f(rnp.float64(a), rnp.float64(b)))
    s, other = (b, a) if isinstance(b, Sym) else (a, b)
    if math.isnan(other):
        return math.nan
    return None


def add(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        r = _special2(a, b, lambda x, y: x + y)
        return r if r is not None else (a if not isinstance(a, Sym) else b)
    if isc(a):
        if isc(b):
            return const(a.data + b.data, a.isint and b.isint)
        if a.data == 0:
            return b
    elif isc(b) and b.data == 0:
        return a
    if isc(a):
        a, b = b, a
    # x + (-x)
    if b.op == "mul" and isc(b.args[0]) and b.args[0].data == -1 and b.args[1] is a and not a.partial:
        return ZERO
    if a.op == "mul" and isc(a.args[0]) and a.args[0].data == -1 and a.args[1] is b and not b.partial:
        return ZERO
    return _mk(Sym, "add", (a, b), isint=a.isint and b.isint)


def neg(a):
    if not isinstance(a, Sym):
        return -a
    return mul(MINUS1(), a)


def MINUS1():
    return const(-1)


def sub(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        r = _special2(a, b, lambda x, y: x - y)
        return r if r is not None else (a if not isinstance(a, Sym) else -b)
    return add(a, neg(b))


def mul(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        r = _special2(a, b, lambda x, y: x * y)
        if r is not None:
            return r
        s, o = (b, a) if isinstance(b, Sym) else (a, b)
        if bool(lt(ZERO, s)):
            return o
        if bool(lt(s, ZERO)):
            return -o
        return math.nan
    if isc(b) and not isc(a):
        a, b = b, a
    if isc(a):
        if isc(b):
            return const(a.data * b.data, a.isint and b.isint)
        if a.data == 0 and not b.partial:
            return ZERO
        if a.data == 1:
            return b
        if b.op == "mul" and isc(b.args[0]):
            return mul(const(a.data * b.args[0].data), b.args[1])
        return _mk(Sym, "mul", (a, b), isint=a.isint and b.isint)
    # pull constants to the front
    if a.op == "mul" and isc(a.args[0]):
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == "mul" and isc(b.args[0]):
        return mul(b.args[0], mul(a, b.args[1]))
    return _mk(Sym, "mul", (a, b), isint=a.isint and b.isint)


def div(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        r = _special2(a, b, lambda x, y: x / y)
        if r is not None:
            return r
        if isinstance(a, Sym):   # finite / inf
            return ZERO
        if bool(lt(ZERO, b)):
            return a
        if bool(lt(b, ZERO)):
            return -a
        return math.nan if math.isnan(a) else a
    if isc(b):
        if b.data == 0:
            if isc(a):
                return math.nan if a.data == 0 else math.copysign(math.inf, a.data)
            if bool(eq(a, ZERO)):
                return math.nan
            return math.inf if bool(lt(ZERO, a)) else -math.inf
        return mul(const(1 / b.data), a)
    if isc(a) and a.data == 0 and not b.partial:
        return _mk(Sym, "div", (a, b), partial=True)
    if a.op == "mul" and isc(a.args[0]):
        return mul(a.args[0], div(a.args[1], b))
    if b.op == "mul" and isc(b.args[0]):
        return mul(const(1 / b.args[0].data), div(a, b.args[1]))
    return _mk(Sym, "div", (a, b), partial=True)


def power(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            with rnp.errstate(all="ignore"):
                return float(rnp.power(rnp.float64(a), rnp.float64(b)))
        if isinstance(b, Sym):     # nan/inf ** sym
            if isc(b) and b.data == 0:
                return ONE
            if math.isnan(a):
                return math.nan
            if isc(b) and a > 0:
                return math.inf if b.data > 0 else ZERO
            if isc(b) and b.data == 2:
                return math.inf
        raise EngineError("power with non-finite operand")
    if isc(b):
        e = b.data
        if e == 0:
            return ONE
        if e == 1:
            return a
        if isc(a):
            if a.data == 0:
                return ZERO if e > 0 else math.inf
            if e.denominator == 1 and abs(e) < 4000:
                return const(a.data ** int(e))
            if a.data == 1:
                return ONE
            if a.data < 0:
                if e.denominator != 1:
                    return math.nan
            r = _exact_root(a.data, e.denominator)
            if r is not None:
                return const(r ** e.numerator)
        if a.op == "pow" and isc(a.args[1]):
            e1 = a.args[1].data
            if e1.denominator == 1 and e.denominator == 1:
                return power(a.args[0], const(e1 * e))
            if e1.denominator != 1:   # base >= 0 already required by the inner root
                return power(a.args[0], const(e1 * e)) if (e1 * e) != 0 else ONE
        if a.op == "exp":
            return exp(mul(b, a.args[0]))
        partial = e < 0 or e.denominator != 1
        return _mk(Sym, "pow", (a, b), isint=a.isint and e.denominator == 1 and e > 0, partial=partial)
    if isc(a):
        if a.data == 1:
            return ONE
        if a.data == 0:
            if bool(lt(ZERO, b)):
                return ZERO
            return ONE if bool(eq(b, ZERO)) else math.inf
    if a.op == "exp":
        return exp(mul(b, a.args[0]))
    if a.op == "ite":
        return power(a.args[1] if bool(a.args[0]) else a.args[2], b)
    if CTX is not None and not bool(lt(ZERO, a)) and bool(eq(a, ZERO)):
        return power(ZERO, b)
    return _mk(Sym, "powt", (a, b), partial=True)


def _exact_root(q, n):
    if q < 0:
        return None
    def root(k):
        r = round(k ** (1.0 / n)) if k < 2**52 else None
        if r is None:
            lo, hi = 0, 1 << (k.bit_length() // n + 1)
            while lo < hi:
                m = (lo + hi + 1) // 2
                if m ** n <= k:
                    lo = m
                else:
                    hi = m - 1
            r = lo
        return r if r ** n == k else None
    a, b = root(q.numerator), root(q.denominator)
    return None if a is None or b is None else Fraction(a, b)


def exp(a):
    if not isinstance(a, Sym):
        return math.nan if math.isnan(a) else (math.inf if a > 0 else ZERO)
    if isc(a) and a.data == 0:
        return ONE
    return _mk(Sym, "exp", (a,))


def log(a):
    if not isinstance(a, Sym):
        return math.inf if a > 0 else math.nan
    if isc(a):
        if a.data == 1:
            return ZERO
        if a.data == 0:
            return -math.inf
        if a.data < 0:
            return math.nan
    if a.op == "exp":
        return a.args[0]
    return _mk(Sym, "log", (a,), partial=True)


def _trig(name, a):
    if not isinstance(a, Sym):
        return math.nan
    # exact values at multiples of pi/2, pi/3
    q = None
    if isc(a) and a.data == 0:
        q = Fraction(0)
    elif a is PI:
        q = Fraction(1)
    elif a.op == "mul" and isc(a.args[0]) and a.args[1] is PI:
        q = a.args[0].data
    if q is not None:
        if name == "sin":
            q, name2 = Fraction(1, 2) - q, "cos"
        else:
            name2 = "cos"
        q = q % 2
        if q > 1:
            q = 2 - q
        tab = {Fraction(0): 1, Fraction(1, 2): 0, Fraction(1): -1, Fraction(1, 3): Fraction(1, 2), Fraction(2, 3): Fraction(-1, 2)}
        if q in tab:
            return const(tab[q])
        sign = 1
        if q > Fraction(1, 2):
            q, sign = 1 - q, -1
        return mul(const(sign), _mk(Sym, "cos", (mul(const(q), PI),)))
    return _mk(Sym, name, (a,))


def cos(a): return _trig("cos", a)
def sin(a): return _trig("sin", a)


def abs_(a):
    if not isinstance(a, Sym):
        return abs(a)
    if isc(a):
        return const(abs(a.data))
    if a.op in ("exp", "abs"):
        return a
    if a.op == "mul" and isc(a.args[0]):
        return mul(const(abs(a.args[0].data)), abs_(a.args[1]))
    if a.op == "var" and a.data[1] is not None and a.data[1] >= 0:
        return a
    return _mk(Sym, "abs", (a,), isint=a.isint)


def floor_(a):
    if not isinstance(a, Sym):
        return a
    if a.isint:
        return a
    if isc(a):
        return const(math.floor(a.data))
    return _mk(Sym, "floor", (a,), isint=True)


def ceil_(a):
    if not isinstance(a, Sym):
        return a
    return neg(floor_(neg(a)))


def rint_(a):
    if a.isint:
        return a
    if isc(a):
        return const(round(a.data))
    raise EngineError("rint of symbolic real")


def trunc_(a):
    if a.isint:
        return a
    if isc(a):
        return const(int(a.data))
    return ite(le(ZERO, a), floor_(a), ceil_(a))


def floordiv(a, b):
    return floor_(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


def lt(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        return _cmp_special(a, b, lambda x, y: x < y)
    d = _constdiff(a, b)
    if d is not None:
        return TRUE if d < 0 else FALSE
    r = _bounds_lt(a, b)
    if r is not None:
        return r
    return _mk(SymBool, "lt", (a, b))


def le(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        return _cmp_special(a, b, lambda x, y: x <= y)
    d = _constdiff(a, b)
    if d is not None:
        return TRUE if d <= 0 else FALSE
    r = _bounds_lt(b, a)
    if r is not None:
        return not_(r)
    return _mk(SymBool, "le", (a, b))


def _var_bounds(x):
    """(lo, strict, hi, strict) of a constant or of a variable's declaration."""
    if x.op == "const":
        return x.data, False, x.data, False
    if x.op == "var":
        if x is PI:
            return Fraction(3), True, Fraction(4), True
        return x.data[1:5]
    return None, False, None, False


def _bounds_lt(a, b):
    """truth of a < b when the declared ranges decide it."""
    if a.op not in ("var", "const") or b.op not in ("var", "const"):
        return None
    alo, als, ahi, ahs = _var_bounds(a)
    blo, bls, bhi, bhs = _var_bounds(b)
    if ahi is not None and blo is not None and (ahi < blo or (ahi == blo and (ahs or bls))):
        return TRUE
    if alo is not None and bhi is not None and alo >= bhi:
        return FALSE
    return None


def eq(a, b):
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        return _cmp_special(a, b, lambda x, y: x == y)
    d = _constdiff(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    if _bounds_lt(a, b) is TRUE or _bounds_lt(b, a) is TRUE:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk(SymBool, "eq", (a, b))


def _constdiff(a, b):
    if a is b and not a.partial:
        return 0
    if isc(a) and isc(b):
        return a.data - b.data
    return None


def _cmp_special(a, b, f):
    x = 0.0 if isinstance(a, Sym) else a   # any finite number
    y = 0.0 if isinstance(b, Sym) else b
    return TRUE if f(x, y) else FALSE


def not_(a):
    if isinstance(a, (bool, rnp.bool_)):
        return FALSE if a else TRUE
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk(SymBool, "not", (a,))


def tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Sym):
        return not_(eq(x, ZERO))
    if isinstance(x, (int, float, rnp.number)):
        return TRUE if x != 0 else FALSE
    raise EngineError(f"truth of {type(x)}")


def and_(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x.op == "false":
            return FALSE
        if x.op == "true" or x in out_ids(out, x):
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk(SymBool, "and", tuple(out))


def out_ids(out, x):
    return ()


def or_(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x.op == "true":
            return TRUE
        if x.op == "false":
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk(SymBool, "or", tuple(out))


def implies(a, b):
    return or_(not_(tobool(a)), tobool(b))


def ite(c, a, b):
    c = tobool(c)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if isinstance(a, (SymBool, bool, rnp.bool_)) and isinstance(b, (SymBool, bool, rnp.bool_)):
        a, b = tobool(a), tobool(b)
        return or_(and_(c, a), and_(not_(c), b))
    a, b = lift(a), lift(b)
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        return a if bool(c) else b     # non-finite branch: fork
    if a is b:
        return a
    return _mk(Sym, "ite", (c, a, b), isint=a.isint and b.isint)


def max2(a, b):
    a, b = lift(a), lift(b)
    if not isinstance(a, Sym) or not isinstance(b, Sym):
        for x in (a, b):
            if not isinstance(x, Sym) and math.isnan(x):
                return math.nan
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return max(a, b)
        s, o = (a, b) if isinstance(a, Sym) else (b, a)
        return o if o > 0 else s
    return ite(lt(a, b), b, a)


def min2(a, b):
    return neg(max2(neg(lift(a)), neg(lift(b))))


def show(n, depth=0):
    if depth > 6:
        return "..."
    if n.op == "const":
        return str(n.data)
    if n.op == "var":
        return n.data[0]
    if n.op == "bvar":
        return n.data
    if n.op in ("true", "false"):
        return n.op
    return n.op + "(" + ", ".join(show(a, depth + 1) for a in n.args) + ")"


# ----------------------------------------------------------------- traversal, derivative, evaluation
def topo(roots):
    """All nodes reachable from roots, children first (iterative)."""
    seen, out = set(), []
    for r in roots:
        if r.id in seen:
            continue
        st = [(r, 0)]
        while st:
            n, i = st.pop()
            if i == 0:
                if n.id in seen:
                    continue
            if i < len(n.args):
                st.append((n, i + 1))
                if n.args[i].id not in seen:
                    st.append((n.args[i], 0))
            else:
                if n.id not in seen:
                    seen.add(n.id)
                    out.append(n)
    return out


def diff(t, v):
    """Exact derivative of term t with respect to variable v."""
    D = {}
    for n in topo([t]):
        if isinstance(n, SymBool):
            continue
        op, a = n.op, n.args
        if n is v:
            d = ONE
        elif op in ("const", "var"):
            d = ZERO
        else:
            das = [D[x.id] if isinstance(x, Sym) else None for x in a]
            if all(x is None or x is ZERO for x in das):
                d = ZERO
            elif op == "add":
                d = add(das[0], das[1])
            elif op == "mul":
                d = add(mul(das[0], a[1]), mul(a[0], das[1]))
            elif op == "div":
                d = ZERO
                if das[0] is not ZERO:
                    d = div(das[0], a[1])
                if das[1] is not ZERO:
                    d = sub(d, div(mul(a[0], das[1]), power(a[1], const(2))))
            elif op == "pow":
                d = mul(mul(a[1], power(a[0], sub(a[1], ONE))), das[0])
            elif op == "powt":
                d = ZERO
                if das[0] is not ZERO:
                    d = mul(mul(a[1], power(a[0], sub(a[1], ONE))), das[0])
                if das[1] is not ZERO:
                    d = add(d, mul(mul(n, log(a[0])), das[1]))
            elif op == "exp":
                d = mul(n, das[0])
            elif op == "log":
                d = div(das[0], a[0])
            elif op == "cos":
                d = mul(neg(sin(a[0])), das[0])
            elif op == "sin":
                d = mul(cos(a[0]), das[0])
            elif op == "abs":
                d = ite(lt(a[0], ZERO), neg(das[0]), das[0])
            elif op == "ite":
                d = ite(a[0], das[1], das[2])
            else:
                raise EngineError("derivative of " + op)
        D[n.id] = d
    return D[t.id]


def remake(n, a):
    """the node n with other arguments, through the simplifying constructors."""
    op = n.op
    if op == "add":
        return add(a[0], a[1])
    if op == "mul":
        return mul(a[0], a[1])
    if op == "div":
        return div(a[0], a[1])
    if op in ("pow", "powt"):
        r = power(a[0], a[1])
        if not isinstance(r, Sym):
            raise EngineError("non-finite term")
        return r
    if op == "exp":
        return exp(a[0])
    if op == "log":
        return log(a[0])
    if op == "cos":
        return cos(a[0])
    if op == "sin":
        return sin(a[0])
    if op == "abs":
        return abs_(a[0])
    if op == "floor":
        return floor_(a[0])
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "lt":
        return lt(a[0], a[1])
    if op == "le":
        return le(a[0], a[1])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    return n


def substitute(roots, values):
    """roots with the variables (by name) replaced by rational constants and transcendental constants by rational approximations."""
    R = {}
    saved = CTX
    set_ctx(None)
    try:
        for n in topo(roots):
            if n.op == "var" and n.data[0] in values:
                r = const(values[n.data[0]])
            elif not n.args:
                r = n
            else:
                a = [R[x.id] for x in n.args]
                r = n if all(x is y for x, y in zip(a, n.args)) else remake(n, a)
                if r.op in ("exp", "log", "cos", "sin", "pow", "powt") and all(isc(x) for x in r.args):
                    v = evalf([r], {})[0]
                    if v != v or abs(v) == math.inf:
                        raise EngineError("non-finite term")
                    r = const(Fraction(v).limit_denominator(10 ** 12) if abs(v) > 1e-3 else Fraction(v))
                if not isinstance(r, (Sym, SymBool)):
                    raise EngineError("non-finite term")
            R[n.id] = r
        return [R[r.id] for r in roots]
    finally:
        set_ctx(saved)


def simplify_ites(root, decide):
    """(term with the decided if-then-else nodes removed, undecided conditions that sit under a non-linear operation, innermost first).
    None when a chosen branch is not a finite term."""
    order = topo([root])
    if not any(n.op == "ite" for n in order):
        return root, [], []
    R, H, open_ = {}, {}, []
    saved = CTX
    set_ctx(None)
    try:
        for n in order:
            if not n.args:
                R[n.id] = n
                continue
            if n.op == "ite":
                c = R[n.args[0].id]
                k = True if c.op == "true" else False if c.op == "false" else decide(c)
                if k is not None:
                    r = R[n.args[1 if k else 2].id]
                else:
                    r = ite(c, R[n.args[1].id], R[n.args[2].id])
                    if r.op == "ite":
                        H.setdefault(r.id, c)
            else:
                a = [R[x.id] for x in n.args]
                r = n if all(x is y for x, y in zip(a, n.args)) else remake(n, a)
            R[n.id] = r
    except (EngineError, ZeroDivisionError):
        return None, [], []
    finally:
        set_ctx(saved)
    root = R[root.id]
    # ites below a non-linear operation
    has = {}
    nl = []
    seen = set()
    for n in topo([root]):
        inner = []
        for x in n.args:
            for c in has[x.id]:
                if not any(c is y for y in inner):
                    inner.append(c)
        if n.op == "ite" and n.id in H and not any(c is H[n.id] for c in inner):
            inner = inner + [H[n.id]]
        has[n.id] = inner
        hard = n.op in ("log", "exp", "pow", "powt", "cos", "sin", "abs") or (n.op == "div" and has[n.args[1].id]) or \
            (n.op == "mul" and has[n.args[0].id] and has[n.args[1].id])
        if hard:
            for c in inner:
                if c.id not in seen:
                    seen.add(c.id)
                    nl.append(c)
    return root, nl, has[root.id]


def evalf(roots, env):
    """Float evaluation; env maps variable name -> float/bool. Returns list."""
    V = {}
    for n in topo(roots):
        op = n.op
        a = [V[x.id] for x in n.args]
        try:
            if op == "const":
                v = float(n.data)
            elif op == "var":
                v = math.pi if n.data[0] == "PI!" else env[n.data[0]]
            elif op == "bvar":
                v = env[n.data]
            elif op == "true":
                v = True
            elif op == "false":
                v = False
            elif op == "add":
                v = a[0] + a[1]
            elif op == "mul":
                v = a[0] * a[1]
            elif op == "div":
                v = a[0] / a[1]
            elif op in ("pow", "powt"):
                v = a[0] ** a[1]
                if isinstance(v, complex):
                    v = math.nan
            elif op == "exp":
                v = math.exp(a[0])
            elif op == "log":
                v = math.log(a[0])
            elif op == "cos":
                v = math.cos(a[0])
            elif op == "sin":
                v = math.sin(a[0])
            elif op == "abs":
                v = abs(a[0])
            elif op == "floor":
                v = math.floor(a[0])
            elif op == "ite":
                v = a[1] if a[0] else a[2]
            elif op == "lt":
                v = a[0] < a[1]
            elif op == "le":
                v = a[0] <= a[1]
            elif op == "eq":
                v = a[0] == a[1]
            elif op == "not":
                v = not a[0]
            elif op == "and":
                v = all(a)
            elif op == "or":
                v = any(a)
            else:
                raise EngineError("evalf " + op)
        except (OverflowError, ZeroDivisionError, ValueError):
            v = math.nan
        V[n.id] = v
    return [V[r.id] for r in roots]


class Sample:
    """Three-valued evaluation of conditions at one concrete input (None: too close to call or undefined)."""

    def __init__(self, env):
        self.env = env
        self.V = {}

    def holds(self, root):
        V = self.V
        for n in topo([root]):
            if n.id in V:
                continue
            op = n.op
            a = [V[x.id] for x in n.args]
            if op in ("and", "or"):
                stop = op == "or"
                v = stop if any(x is stop for x in a) else None if any(x is None for x in a) else not stop
            elif op == "not":
                v = None if a[0] is None else not a[0]
            elif op == "ite":
                v = None if a[0] is None else a[1] if a[0] else a[2]
            elif any(x is None for x in a):
                v = None
            elif op == "true" or op == "false":
                v = op == "true"
            else:
                try:
                    v = self.value(n, op, a)
                except (OverflowError, ZeroDivisionError, ValueError, KeyError, TypeError):
                    v = None
                if isinstance(v, (complex, float)) and (isinstance(v, complex) or not math.isfinite(v)):
                    v = None
            V[n.id] = v
        return V[root.id]

    def value(self, n, op, a):
        if op == "const":
            return float(n.data)
        if op == "var":
            return math.pi if n.data[0] == "PI!" else self.env[n.data[0]]
        if op == "bvar":
            return bool(self.env[n.data])
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op in ("pow", "powt"):
            return a[0] ** a[1]
        if op in ("exp", "log", "cos", "sin", "floor"):
            return getattr(math, op)(a[0])
        if op == "abs":
            return abs(a[0])
        if op in ("lt", "le", "eq"):
            if all(x.op in ("var", "const") for x in n.args):
                return a[0] < a[1] if op == "lt" else a[0] <= a[1] if op == "le" else a[0] == a[1]
            if abs(a[0] - a[1]) <= 1e-7 * (abs(a[0]) + abs(a[1])) + 1e-12:
                return None
            return False if op == "eq" else a[0] < a[1]
        return None


def definedness(roots):
    """List of boolean terms under which all roots are defined reals (division, log, roots)."""
    memo = {}
    for n in topo(roots):
        op = n.op
        if op == "ite":
            c, a, b = n.args
            conds = list(memo[c.id])
            for x in memo[a.id]:
                if x not in memo[b.id]:
                    conds.append(implies(c, x))
            for x in memo[b.id]:
                conds.append(x if x in memo[a.id] else or_(c, x))
        else:
            conds = []
            s = set()
            for a in n.args:
                for x in memo[a.id]:
                    if x.id not in s:
                        s.add(x.id)
                        conds.append(x)
            new = None
            if op == "div":
                new = not_(eq(n.args[1], ZERO))
            elif op == "log":
                new = lt(ZERO, n.args[0])
            elif op == "pow":
                e = n.args[1].data
                if e.denominator == 1:
                    if e < 0:
                        new = not_(eq(n.args[0], ZERO))
                else:
                    new = le(ZERO, n.args[0]) if e > 0 else lt(ZERO, n.args[0])
            elif op == "powt":
                new = lt(ZERO, n.args[0])
            if new is not None and new.op != "true" and new.id not in s:
                conds.append(new)
        memo[n.id] = _Conds(conds)
    out, s = [], set()
    for r in roots:
        for x in memo[r.id]:
            if x.id not in s:
                s.add(x.id)
                out.append(x)
    return out


class _Conds(list):
    def __contains__(self, x):
        return any(y is x for y in self)


PI = ZERO = ONE = TRUE = FALSE = None
reset_table()


def install_numbers():
    numbers.Number.register(Sym)


install_numbers()
