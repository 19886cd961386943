"""Arrays of symbolic numbers: an object-dtype ndarray subclass with its own ufunc semantics."""
import math
import operator
import warnings

import numpy as rnp

from . import sym as S
from .sym import Sym, SymBool, EngineError, lift

# not-a-number elements are values here like any other
warnings.filterwarnings("ignore", message="invalid value encountered in g")

FLOAT = rnp.dtype(rnp.float64)
_base_dtype = rnp.ndarray.dtype.__get__


def norm_elem(x):
    """Normalise one array element."""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, float):
        r = lift(x)
        return r if isinstance(r, Sym) else rnp.float64(r)
    if isinstance(x, (bool, rnp.bool_)):
        return S.TRUE if x else S.FALSE
    if x is None or isinstance(x, str):
        raise EngineError(f"non-numeric array element {x!r}")
    if isinstance(x, rnp.ma.core.MaskedConstant):
        return rnp.float64(math.nan)
    r = lift(x)
    return r if isinstance(r, Sym) else rnp.float64(r)


_vnorm = rnp.frompyfunc(norm_elem, 1, 1)


def is_symbolic(x):
    return isinstance(x, (Sym, SymBool, SymArray))


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def as_base(x):
    """anything -> plain object ndarray of normalised elements."""
    if isinstance(x, SymArray):
        return x.view(rnp.ndarray)
    if isinstance(x, (Sym, SymBool)):
        r = rnp.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, rnp.ndarray):
        if _base_dtype(x) == object:
            return _apply_norm(x.view(rnp.ndarray))
        return _apply_norm(rnp.asarray(x))
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return _apply_norm(_nested(x))
        return _apply_norm(rnp.asarray(x))
    return _apply_norm(rnp.asarray(x))


def _nested(x):
    """Build an object array out of nested sequences which may contain symbolic arrays/scalars."""
    def shape_of(v):
        if isinstance(v, rnp.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if len(v) == 0:
                return (0,)
            s = shape_of(v[0])
            for w in v[1:]:
                if shape_of(w) != s:
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(v),) + s
        return ()
    shp = shape_of(x)
    out = rnp.empty(shp, dtype=object)

    def fill(v, idx):
        if isinstance(v, rnp.ndarray):
            b = v.view(rnp.ndarray)
            for k in rnp.ndindex(v.shape):
                out[idx + k] = b[k]
        elif isinstance(v, (list, tuple)):
            for i, w in enumerate(v):
                fill(w, idx + (i,))
        else:
            out[idx] = v
    fill(x, ())
    return out


def _apply_norm(a):
    if a.ndim == 0:
        r = rnp.empty((), dtype=object)
        r[()] = norm_elem(a[()])
        return r
    if a.size == 0:
        return rnp.empty(a.shape, dtype=object)
    return _vnorm(a)


def wrap(b):
    """plain object ndarray -> SymArray, or concrete bool array if every element is a constant boolean; 0-d -> scalar."""
    if not isinstance(b, rnp.ndarray):
        return unbox(b)
    if b.ndim == 0:
        return unbox(b[()])
    if b.size and all(isinstance(x, SymBool) and x.op in ("true", "false") for x in b.flat):
        return rnp.array([x.op == "true" for x in b.flat], dtype=bool).reshape(b.shape)
    return b.view(SymArray)


def unbox(x):
    if isinstance(x, SymBool):
        return rnp.True_ if x.op == "true" else rnp.False_ if x.op == "false" else x
    return x


def mkarr(x):
    """like np.array for symbolic content, always SymArray."""
    return as_base(x).copy().view(SymArray)


def symarr(x):
    return x if isinstance(x, IntArr) else as_base(x).view(SymArray)


def allint(x):
    """integer data: what real numpy would hold in an integer array."""
    if isinstance(x, (IntArr, int, rnp.integer, rnp.bool_)) or x is None:
        return True
    if isinstance(x, rnp.ndarray):
        return not isinstance(x, SymArray) and _base_dtype(x).kind in "iub"
    return isinstance(x, (list, tuple)) and len(x) > 0 and all(allint(y) for y in x)


def hasint(x):
    return isinstance(x, IntArr) or (isinstance(x, (list, tuple)) and any(hasint(y) for y in x))


def asint(r):
    """a result which real numpy holds in integer arrays."""
    if isinstance(r, SymArray):
        return r.view(IntArr)
    if isinstance(r, (list, tuple)) and not hasattr(r, "_fields"):
        return type(r)(asint(x) for x in r)
    return r


INTUF = ("add", "subtract", "multiply", "negative", "positive", "absolute", "maximum", "minimum", "square", "floor_divide", "remainder", "mod", "sign", "conjugate")


def intresult(name, args):
    if not any(isinstance(x, IntArr) for x in args) or not all(allint(x) for x in args):
        return False
    if name == "power":
        if isinstance(args[1], (int, rnp.integer)) and args[1] < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        return isinstance(args[1], (int, rnp.integer))
    return name in INTUF


_INTEGRAL = {}


def integral(x):
    """syntactically integer-valued."""
    if not isinstance(x, Sym):
        return False
    if x.isint:
        return True
    if x.op == "const":
        return x.data.denominator == 1
    if x.op in ("add", "mul", "abs", "neg"):
        r = _INTEGRAL.get(x.id)
        if r is None:
            r = _INTEGRAL[x.id] = all(integral(a) for a in x.args)
        return r
    if x.op == "ite":
        return integral(x.args[1]) and integral(x.args[2])
    if x.op == "pow":
        return integral(x.args[0]) and x.args[1].op == "const" and x.args[1].data.denominator == 1 and x.args[1].data >= 0
    return False


def toreal(x):
    """the real number an integer symbol stands for."""
    return S._mk(Sym, "add", (x, S.ZERO), isint=False)


def stored(x):
    """an element as an integer array keeps it."""
    if isinstance(x, SymBool):
        return S.ite(x, S.ONE, S.ZERO)
    if not isinstance(x, Sym):
        raise EngineError("non-finite value stored into an integer array")
    return x if integral(x) else S.trunc_(x)


# ------------------------------------------------------------------ elementwise operations
def _num2(f):
    def g(a, b):
        a = S.ite(a, S.ONE, S.ZERO) if isinstance(a, SymBool) else a
        b = S.ite(b, S.ONE, S.ZERO) if isinstance(b, SymBool) else b
        r = f(a, b)
        return r if isinstance(r, (Sym, SymBool)) else rnp.float64(r)
    return g


def _num1(f):
    def g(a):
        a = S.ite(a, S.ONE, S.ZERO) if isinstance(a, SymBool) else a
        r = f(a)
        return r if isinstance(r, (Sym, SymBool)) else rnp.float64(r)
    return g


def _cmp(name):
    def f(a, b):
        if name == "less":
            return S.lt(a, b)
        if name == "less_equal":
            return S.le(a, b)
        if name == "greater":
            return S.lt(b, a)
        if name == "greater_equal":
            return S.le(b, a)
        if name == "equal":
            return S.eq(a, b)
        return S.not_(S.eq(a, b))
    return f


def s_sign(a):
    if not isinstance(a, Sym):
        return a if math.isnan(a) else math.copysign(1.0, a)
    return S.ite(S.lt(S.ZERO, a), S.ONE, S.ite(S.lt(a, S.ZERO), S.const(-1), S.ZERO))


def s_sqrt(a):
    return S.power(a, S.const(S.Fraction(1, 2))) if isinstance(a, Sym) else math.sqrt(a) if a > 0 else math.nan


def s_isnan(a):
    return S.TRUE if (not isinstance(a, (Sym, SymBool)) and math.isnan(a)) else S.FALSE


def s_isinf(a):
    return S.TRUE if (not isinstance(a, (Sym, SymBool)) and math.isinf(a)) else S.FALSE


def s_isfinite(a):
    return S.TRUE if isinstance(a, (Sym, SymBool)) or math.isfinite(a) else S.FALSE


def _half():
    return S.const(S.Fraction(1, 2))


def s_tan(a):
    return S.div(S.sin(a), S.cos(a))


UF2 = {
    "add": _num2(S.add), "subtract": _num2(S.sub), "multiply": _num2(S.mul), "divide": _num2(S.div), "true_divide": _num2(S.div),
    "floor_divide": _num2(lambda a, b: S.floordiv(a, b)), "remainder": _num2(lambda a, b: S.mod(a, b)), "mod": _num2(lambda a, b: S.mod(a, b)),
    "power": _num2(S.power), "float_power": _num2(S.power), "maximum": _num2(S.max2), "minimum": _num2(S.min2),
    "fmax": _num2(lambda a, b: b if s_isnan(a).op == "true" else a if s_isnan(b).op == "true" else S.max2(a, b)),
    "fmin": _num2(lambda a, b: b if s_isnan(a).op == "true" else a if s_isnan(b).op == "true" else S.min2(a, b)),
    "hypot": _num2(lambda a, b: s_sqrt(S.add(S.mul(a, a), S.mul(b, b)))),
    "less": _num2(_cmp("less")), "less_equal": _num2(_cmp("less_equal")), "greater": _num2(_cmp("greater")),
    "greater_equal": _num2(_cmp("greater_equal")), "equal": _num2(_cmp("equal")), "not_equal": _num2(_cmp("not_equal")),
    "logical_and": lambda a, b: S.and_(_tb(a), _tb(b)), "logical_or": lambda a, b: S.or_(_tb(a), _tb(b)),
    "logical_xor": lambda a, b: _tb(a) ^ _tb(b),
    "bitwise_and": lambda a, b: S.and_(_bb(a), _bb(b)), "bitwise_or": lambda a, b: S.or_(_bb(a), _bb(b)),
    "bitwise_xor": lambda a, b: _bb(a) ^ _bb(b),
    "copysign": _num2(lambda a, b: S.ite(S.lt(b, S.ZERO), S.neg(S.abs_(a)), S.abs_(a))),
    "heaviside": _num2(lambda a, b: S.ite(S.lt(a, S.ZERO), S.ZERO, S.ite(S.lt(S.ZERO, a), S.ONE, b))),
    "logaddexp": _num2(lambda a, b: S.log(S.add(S.exp(a), S.exp(b)))),
}
UF1 = {
    "negative": _num1(S.neg), "positive": _num1(lambda a: a), "absolute": _num1(S.abs_), "fabs": _num1(S.abs_),
    "exp": _num1(S.exp), "expm1": _num1(lambda a: S.sub(S.exp(a), S.ONE)), "exp2": _num1(lambda a: S.power(S.const(2), a)),
    "log": _num1(S.log), "log1p": _num1(lambda a: S.log(S.add(S.ONE, a))), "log2": _num1(lambda a: S.div(S.log(a), S.log(S.const(2)))),
    "log10": _num1(lambda a: S.div(S.log(a), S.log(S.const(10)))),
    "sqrt": _num1(s_sqrt), "square": _num1(lambda a: S.mul(a, a)), "cbrt": _num1(lambda a: S.power(a, S.const(S.Fraction(1, 3)))),
    "reciprocal": _num1(lambda a: S.div(S.ONE, a)), "sin": _num1(S.sin), "cos": _num1(S.cos), "tan": _num1(s_tan), "sign": _num1(s_sign),
    "ceil": _num1(S.ceil_), "floor": _num1(S.floor_), "trunc": _num1(lambda a: S.trunc_(a) if isinstance(a, Sym) else a),
    "rint": _num1(lambda a: S.rint_(a) if isinstance(a, Sym) else a),
    "conjugate": _num1(lambda a: a), "logical_not": lambda a: S.not_(_tb(a)), "invert": lambda a: S.not_(_bb(a)),
    "tanh": _num1(lambda a: S.div(S.sub(S.exp(S.mul(S.const(2), a)), S.ONE), S.add(S.exp(S.mul(S.const(2), a)), S.ONE))),
    "cosh": _num1(lambda a: S.div(S.add(S.exp(a), S.exp(S.neg(a))), S.const(2))),
    "sinh": _num1(lambda a: S.div(S.sub(S.exp(a), S.exp(S.neg(a))), S.const(2))),
    "isnan": s_isnan, "isinf": s_isinf, "isfinite": s_isfinite, "signbit": _num1(lambda a: S.lt(a, S.ZERO)),
    "deg2rad": _num1(lambda a: S.div(S.mul(a, S.PI), S.const(180))), "radians": _num1(lambda a: S.div(S.mul(a, S.PI), S.const(180))),
    "rad2deg": _num1(lambda a: S.div(S.mul(a, S.const(180)), S.PI)),
}


def _tb(a):
    if isinstance(a, float) and not isinstance(a, Sym):
        return S.TRUE if a != 0 else S.FALSE
    return S.tobool(a)


def _bb(a):
    if isinstance(a, SymBool):
        return a
    if isinstance(a, Sym) and a.op == "const" and a.data in (0, 1):
        return S.TRUE if a.data == 1 else S.FALSE
    raise EngineError("bitwise operation on symbolic numbers")


_UF = {}


def elementwise(name):
    f = _UF.get(name)
    if f is None:
        if name in UF2:
            f = rnp.frompyfunc(UF2[name], 2, 1)
        elif name in UF1:
            f = rnp.frompyfunc(UF1[name], 1, 1)
        else:
            raise EngineError(f"ufunc {name} is not modelled")
        _UF[name] = f
    return f


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_or": False, "bitwise_and": True}


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(operator.index(a) % ndim for a in axis)
    return (operator.index(axis) % ndim,)


def reduce_(name, a, axis=0, keepdims=False, initial=None, where=True):
    if isinstance(a, IntArr) and name in ("add", "multiply", "maximum", "minimum"):
        return asint(reduce_(name, a.view(SymArray), axis, keepdims, initial, where))
    b = as_base(a)
    if b.ndim == 0:
        b = b.reshape(1)
        axis = None
    axs = _axes(axis, b.ndim)
    rest = [i for i in range(b.ndim) if i not in axs]
    t = b.transpose(rest + list(axs)).reshape([b.shape[i] for i in rest] + [-1])
    if t.shape and 0 in t.shape:
        n = int(rnp.prod([b.shape[i] for i in axs]))
        t = b.transpose(rest + list(axs)).reshape([b.shape[i] for i in rest] + [n])
    w = None
    if where is not True:
        wb = rnp.broadcast_to(as_base(where), b.shape)
        w = wb.transpose(rest + list(axs)).reshape(t.shape)
    f = UF2[name]
    out = rnp.empty(t.shape[:-1], dtype=object)
    for idx in rnp.ndindex(t.shape[:-1]):
        acc = None if initial is None or initial is rnp._NoValue else norm_elem(initial)
        row = t[idx]
        for j in range(t.shape[-1]):
            x = row[j]
            if w is not None:
                c = S.tobool(w[idx][j])
                base = acc if acc is not None else (norm_elem(IDENT[name]) if name in IDENT else None)
                if base is None:
                    if bool(c):
                        acc = x
                    continue
                acc = S.ite(c, f(base, x), base)
            else:
                if acc is None:
                    acc = _tb(x) if name.startswith("logical") else x
                    if isinstance(acc, SymBool) and name in ("add", "multiply"):
                        acc = S.ite(acc, S.ONE, S.ZERO)
                else:
                    acc = f(acc, x)
        if acc is None:
            if name not in IDENT:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            acc = norm_elem(IDENT[name]) if not isinstance(IDENT[name], bool) else (S.TRUE if IDENT[name] else S.FALSE)
        out[idx] = acc
    if keepdims and keepdims is not rnp._NoValue:
        out = out.reshape([1 if i in axs else b.shape[i] for i in range(b.ndim)])
    return wrap(out)


def accumulate_(name, a, axis=0):
    if isinstance(a, IntArr) and name in ("add", "multiply", "maximum", "minimum"):
        return asint(accumulate_(name, a.view(SymArray), axis))
    b = as_base(a)
    if axis is None:
        b, axis = b.reshape(-1), 0
    out = rnp.moveaxis(b, axis, 0).copy()
    f = UF2[name]
    for i in range(1, out.shape[0]):
        for idx in rnp.ndindex(out.shape[1:]):
            out[(i,) + idx] = f(out[(i - 1,) + idx], out[(i,) + idx])
    return wrap(rnp.moveaxis(out, 0, axis))


def matmul_(a, b):
    if hasint((a, b)) and allint((a, b)):
        return asint(matmul_(as_base(a), as_base(b)))
    a, b = as_base(a), as_base(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot_(a, b)
    # batched
    sh = rnp.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a2 = rnp.broadcast_to(a, sh + a.shape[-2:])
    b2 = rnp.broadcast_to(b, sh + b.shape[-2:])
    out = rnp.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in rnp.ndindex(sh):
        out[idx] = as_base(dot_(a2[idx], b2[idx]))
    return wrap(out)


_fadd, _fmul = UF2["add"], UF2["multiply"]


def dot_(a, b):
    if hasint((a, b)) and allint((a, b)):
        return asint(dot_(as_base(a), as_base(b)))
    a, b = as_base(a), as_base(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(elementwise("multiply")(a, b))
    k1, k2 = a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0]
    if k1 != k2:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned: {k1} (dim {a.ndim - 1}) != {k2} (dim {max(0, b.ndim - 2)})")
    bt = rnp.moveaxis(b, -2, -1) if b.ndim > 1 else b
    out = rnp.empty(a.shape[:-1] + bt.shape[:-1], dtype=object)
    for i in rnp.ndindex(a.shape[:-1]):
        for j in rnp.ndindex(bt.shape[:-1]):
            r, c = a[i], bt[j]
            acc = None
            for q in range(k1):
                p = _fmul(r[q], c[q])
                acc = p if acc is None else _fadd(acc, p)
            out[i + j] = S.ZERO if acc is None else acc
    return wrap(out)


def cast_scalar(x, dt):
    dt = rnp.dtype(dt)
    if isinstance(x, SymBool):
        return x if dt == bool or dt == object else S.ite(x, S.ONE, S.ZERO)
    if not isinstance(x, Sym):
        if dt.kind in "iu":
            raise EngineError("non-finite value cast to integer")
        if dt.kind == "b":
            return S.TRUE if x != 0 else S.FALSE
        return x
    if dt.kind == "b":
        return S.tobool(x)
    if dt.kind in "iu":
        return S.trunc_(x)
    if dt == object or dt.kind == "f":
        return x if not x.isint or dt == object else x
    if dt.kind == "c":
        return x
    if dt.kind == "U":
        raise EngineError("symbolic value turned into text")
    raise EngineError(f"cast to {dt}")


def key_symbolic(key):
    if isinstance(key, SymArray) or isinstance(key, (Sym, SymBool)):
        return True
    if isinstance(key, tuple):
        return any(key_symbolic(k) for k in key)
    if isinstance(key, list):
        return has_sym(key)
    if isinstance(key, slice):
        return any(isinstance(k, (Sym, SymBool)) for k in (key.start, key.stop, key.step))
    return False


def conc_key(key):
    """Concretise an index expression (forks)."""
    if isinstance(key, Sym):
        return operator.index(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, (SymArray, list)) and has_sym(key):
        b = as_base(key)
        if b.size and all(isinstance(x, SymBool) for x in b.flat):
            return rnp.array([bool(x) for x in b.flat], dtype=bool).reshape(b.shape)
        return rnp.array([operator.index(x) for x in b.flat], dtype=int).reshape(b.shape)
    if isinstance(key, tuple):
        return tuple(conc_key(k) for k in key)
    if isinstance(key, slice):
        return slice(*[operator.index(k) if isinstance(k, (Sym, SymBool)) else k for k in (key.start, key.stop, key.step)])
    return key


def _is_symmask(k):
    return isinstance(k, SymArray) and k.size > 0 and all(isinstance(x, SymBool) for x in k.view(rnp.ndarray).flat)


class SymArray(rnp.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        pass

    @property
    def dtype(self):
        d = _base_dtype(self)
        if d != object:
            return d
        b = self.view(rnp.ndarray)
        if b.size and all(isinstance(x, SymBool) for x in b.flat):
            return rnp.dtype(bool)
        if b.size and all(isinstance(x, Sym) and x.isint for x in b.flat) and not all(x.op == "const" for x in b.flat):
            return rnp.dtype(int)
        return FLOAT

    @property
    def base_(self):
        return self.view(rnp.ndarray)

    # ---- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return array_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        f = npshim.lookup(func)
        if f is not None:
            return f(*args, **kwargs)
        return npshim.fallback(func, args, kwargs)

    # ---- indexing
    def __getitem__(self, key):
        if key_symbolic(key):
            key = conc_key(key)
        r = self.view(rnp.ndarray)[key]
        if isinstance(r, rnp.ndarray):
            return r.view(SymArray)
        return r

    def __setitem__(self, key, val):
        b = self.view(rnp.ndarray)
        if key_symbolic(key):
            ks = key if isinstance(key, tuple) else (key,)
            masks = [i for i, k in enumerate(ks) if _is_symmask(k)]
            if len(masks) == 1 and not any(key_symbolic(k) for i, k in enumerate(ks) if i != masks[0]):
                m = ks[masks[0]].view(rnp.ndarray)
                vb = as_base(val)
                if vb.ndim == 0:
                    for idx in rnp.ndindex(m.shape):
                        kk = ks[:masks[0]] + idx + ks[masks[0] + 1:]
                        c = m[idx]
                        old = b[kk]
                        if isinstance(old, rnp.ndarray):
                            for j in rnp.ndindex(old.shape):
                                old[j] = _ite(c, vb[()], old[j])
                            b[kk] = old
                        else:
                            b[kk] = _ite(c, vb[()], old)
                    return
            key = conc_key(key)
        v = as_base(val)
        if v.ndim == 0:
            v = v[()]
        r = b[key]
        if not isinstance(r, rnp.ndarray):
            if isinstance(v, rnp.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = v.reshape(-1)[0]
            b[key] = v
            return
        b[key] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.shape[0]))

    def __contains__(self, x):
        return bool(self.__eq__(x).any())

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(S.tobool(self.view(rnp.ndarray).reshape(-1)[0]) if not is_spec(self.view(rnp.ndarray).reshape(-1)[0]) else True)

    def __float__(self):
        raise EngineError("float() of a symbolic array reached C code")

    def __int__(self):
        if self.size == 1:
            return int(self.view(rnp.ndarray).reshape(-1)[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __index__(self):
        if self.ndim == 0:
            return operator.index(self[()])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __repr__(self):
        return "<symarray %s>" % (self.shape,)

    def __str__(self):
        from .npshim import HOOKS
        if "format" in HOOKS:
            return "[" + " ".join(str(x) for x in rnp.asarray(self).ravel()) + "]"
        return repr(self)

    def __format__(self, spec):
        return str(self)

    def __reduce__(self):
        raise EngineError("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    # ---- methods
    def astype(self, dt, *a, **k):
        d = rnp.dtype(dt)
        if is_single(d):
            return single(self)
        return wrap2(_map(lambda x: cast_scalar(x, d), self.view(rnp.ndarray)))

    def copy(self, *a, **k):
        return self.view(rnp.ndarray).copy().view(SymArray)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if is_single(dtype):
            return _out(single(reduce_("add", self, axis, keepdims, initial, where)), out)
        return _out(reduce_("add", self, axis, keepdims, initial, where), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("multiply", self, axis, keepdims, initial, where), out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        n = self.size if axis is None else int(rnp.prod([self.shape[i] for i in _axes(axis, self.ndim)]))
        if where is not True:
            raise EngineError("mean with where")
        return _out(reduce_("add", self, axis, keepdims) / n, out)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        m = self.mean(axis=axis, keepdims=True)
        n = self.size if axis is None else int(rnp.prod([self.shape[i] for i in _axes(axis, self.ndim)]))
        d = self - m
        return reduce_("add", d * d, axis, keepdims) / (n - ddof)

    def std(self, *a, **k):
        return elem("sqrt", self.var(*a, **k))

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("maximum", self, axis, keepdims, initial, where), out)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("minimum", self, axis, keepdims, initial, where), out)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_or", self, axis, keepdims, None, where)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_and", self, axis, keepdims, None, where)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate_("add", self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate_("multiply", self, axis)

    def dot(self, o, out=None):
        return dot_(self, o)

    def round(self, decimals=0, out=None):
        if decimals:
            return _map(lambda x: roundto(x, decimals), self.view(rnp.ndarray)).view(SymArray)
        return elem("rint", self)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = elem("maximum", r, min)
        if max is not None:
            r = elem("minimum", r, max)
        return _out(r, out)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        from . import npshim
        return npshim.argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        from . import npshim
        self.view(rnp.ndarray)[...] = as_base(npshim.sort(self, axis))

    def argmax(self, axis=None, out=None, **k):
        from . import npshim
        return npshim.argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        from . import npshim
        return npshim.argmin(self, axis)

    def nonzero(self):
        return rnp.nonzero(conc_bool(self))

    def searchsorted(self, v, side="left", sorter=None):
        from . import npshim
        return npshim.searchsorted(self, v, side, sorter)

    def tolist(self):
        def rec(b):
            return [rec(x) for x in b] if isinstance(b, rnp.ndarray) else b
        b = self.view(rnp.ndarray)
        return b[()] if b.ndim == 0 else rec(b)

    def item(self, *a):
        b = self.view(rnp.ndarray)
        if not a:
            if b.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return b.reshape(-1)[0]
        return b[a[0]] if isinstance(a[0], tuple) else (b.reshape(-1)[a[0]] if len(a) == 1 else b[a])

    def fill(self, v):
        self.view(rnp.ndarray)[...] = norm_elem(v) if not isinstance(v, rnp.ndarray) else norm_elem(v.item())

    def conj(self):
        return self.copy()
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return symarr(rnp.zeros(self.shape))

    def trace(self, *a, **k):
        return reduce_("add", self.view(rnp.ndarray).diagonal(*a), -1)

    def take(self, indices, axis=None, **k):
        return self.view(rnp.ndarray).take(conc_key(indices), axis=axis).view(SymArray) if not isinstance(indices, int) else \
            _v(self.view(rnp.ndarray).take(indices, axis=axis))

    def compress(self, cond, axis=None):
        return _v(self.view(rnp.ndarray).compress(conc_bool(cond), axis=axis))

    def tobytes(self, *a):
        raise EngineError("tobytes of symbolic array")

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    # comparison operators go through ufuncs
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return rnp.zeros(self.shape, dtype=bool)
        return elem("equal", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return rnp.ones(self.shape, dtype=bool)
        return elem("not_equal", self, o)

    __hash__ = None

    def __matmul__(self, o):
        return matmul_(self, o)

    def __rmatmul__(self, o):
        return matmul_(o, self)

    def __divmod__(self, o):
        return self // o, self % o


SINGLE_USED = [False]


def is_single(dt):
    return dt is not None and rnp.dtype(dt).kind == "f" and rnp.dtype(dt).itemsize < 8


def rounded(x):
    """an element as an array of low precision keeps it: some unknown number near it."""
    if not isinstance(x, Sym) or S.get_ctx() is None:
        return x
    if x.op == "const" and float(rnp.float32(float(x.data))) == x.data:
        return x
    ctx = S.get_ctx()
    memo = ctx.__dict__.setdefault("single_", {})
    if x.id not in memo:
        memo[x.id] = (x, ctx.fresh("single"))
        SINGLE_USED[0] = True
    return memo[x.id][1]


def roundto(x, digits):
    """a number rounded to digits: some unknown number near it."""
    if not isinstance(x, Sym) or S.get_ctx() is None or digits < 0:
        if isinstance(x, Sym):
            raise EngineError("rounding to digits")
        return round(x, digits)
    if x.op == "const" and (x.data * 10**digits).denominator == 1 or integral(x):
        return x
    ctx = S.get_ctx()
    memo = ctx.__dict__.setdefault("single_", {})
    if (x.id, digits) not in memo:
        memo[x.id, digits] = (x, ctx.fresh("single"))
        SINGLE_USED[0] = True
    return memo[x.id, digits][1]


def single(a):
    """the array in low precision."""
    b = as_base(a)
    return _map(rounded, b).view(SingleArr) if b.ndim else rounded(b[()])


class SingleArr(SymArray):
    """an array of numbers of less than double precision."""

    def __getitem__(self, key):
        r = SymArray.__getitem__(self, key)
        return r.view(SingleArr) if isinstance(r, rnp.ndarray) else r

    def __setitem__(self, key, val):
        v = as_base(val)
        SymArray.__setitem__(self, key, rounded(v[()]) if v.ndim == 0 else _map(rounded, v).view(SymArray))

    def astype(self, dt, *a, **k):
        return SymArray.astype(self.view(SymArray), dt)

    def copy(self, *a, **k):
        return self.view(rnp.ndarray).copy().view(SingleArr)

    def fill(self, v):
        self[...] = v


class IntArr(SymArray):
    """an array of integers: what is stored into it is cut down to an integer."""
    dtype = property(lambda s: rnp.dtype(int))

    def __getitem__(self, key):
        if key_symbolic(key):
            key = conc_key(key)
        r = self.view(rnp.ndarray)[key]
        return r.view(IntArr) if isinstance(r, rnp.ndarray) else r

    def __setitem__(self, key, val):
        if not allint(val):
            v = as_base(val)
            val = stored(v[()]) if v.ndim == 0 else _map(stored, v).view(SymArray)
        SymArray.__setitem__(self, key, val)

    def astype(self, dt, *a, **k):
        b = self.view(rnp.ndarray).copy()
        return single(b) if is_single(dt) else b.view(IntArr) if rnp.dtype(dt).kind in "iu" else b.view(SymArray) if rnp.dtype(dt).kind == "f" else SymArray.astype(self, dt)

    def copy(self, *a, **k):
        return self.view(rnp.ndarray).copy().view(IntArr)

    def fill(self, v):
        self[...] = v

    def take(self, *a, **k):
        return asint(SymArray.take(self, *a, **k))

    def compress(self, *a, **k):
        return asint(SymArray.compress(self, *a, **k))

    def clip(self, min=None, max=None, out=None, **k):
        r = SymArray.clip(self, min, max, out, **k)
        return asint(r) if allint((min, max)) else r


def is_spec(x):
    return isinstance(x, float)


def _v(x):
    return x.view(SymArray) if isinstance(x, rnp.ndarray) else x


def _ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, float) or isinstance(b, float):
        return a if bool(c) else b
    return S.ite(c, a, b)


def _map(f, b):
    out = rnp.empty(b.shape, dtype=object)
    for i in rnp.ndindex(b.shape):
        out[i] = f(b[i])
    return out


def wrap2(b):
    """like wrap, but all-constant integers become a concrete int array."""
    return wrap(b)


def conc_bool(a):
    """concrete bool array (forks)."""
    if isinstance(a, rnp.ndarray) and not isinstance(a, SymArray):
        return a.astype(bool)
    b = as_base(a)
    return rnp.array([bool(_tb(x)) for x in b.flat], dtype=bool).reshape(b.shape)


def _out(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    assign(out, r)
    return out


def assign(out, r, where=True):
    if not isinstance(out, SymArray):
        raise EngineError("symbolic result stored into a machine-number array")
    b = out.view(rnp.ndarray)
    rb = rnp.broadcast_to(as_base(r), b.shape)
    if isinstance(out, SingleArr):
        rb = _map(rounded, rb)
    if isinstance(out, IntArr) and not allint(r) and not all(integral(x) for x in rb.flat):
        raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
    if where is True:
        b[...] = rb
        return
    w = rnp.broadcast_to(as_base(where), b.shape)
    for i in rnp.ndindex(b.shape):
        b[i] = _ite(S.tobool(w[i]), rb[i], b[i])


def elem(name, *args):
    if any(isinstance(x, IntArr) for x in args) and intresult(name, args):
        return asint(wrap(elementwise(name)(*[as_base(a) for a in args])))
    return wrap(elementwise(name)(*[as_base(a) for a in args]))


def array_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    kw.pop("casting", None)
    kw.pop("order", None)
    dt = kw.pop("dtype", None)
    if dt is not None and is_single(dt):
        r = array_ufunc(ufunc, method, inputs, out, kw)
        return single(r) if out is None else r
    kw.pop("subok", None)
    where = kw.pop("where", True)
    if name == "vecdot":
        name = "matmul"
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    if name == "divmod" and method == "__call__":
        return elem("floor_divide", *inputs), elem("remainder", *inputs)
    if method == "__call__":
        for x in inputs:
            if isinstance(x, rnp.ma.MaskedArray) or type(x).__name__ == "SymMasked":
                return NotImplemented
        if name == "matmul":
            r = matmul_(*inputs)
        else:
            if where is not True and out is None:
                out = wrap(rnp.full(rnp.broadcast_shapes(*[rnp.shape(x) for x in inputs]), None, dtype=object))
                if not isinstance(out, SymArray):
                    raise EngineError("where= without out=")
            r = elem(name, *inputs)
        if out is None:
            return r
        if isinstance(r, rnp.ndarray) and not isinstance(r, SymArray) and not isinstance(out, SymArray):
            out[...] = r
            return out
        assign(out, r, where)
        return out
    if method == "reduce":
        axis = kw.pop("axis", 0)
        r = reduce_(name, inputs[0], axis if len(inputs) < 2 else inputs[1], kw.pop("keepdims", False), kw.pop("initial", None), where)
        return _out(r, out)
    if method == "accumulate":
        return _out(accumulate_(name, inputs[0], kw.pop("axis", 0)), out)
    if method == "outer":
        a, b = as_base(inputs[0]), as_base(inputs[1])
        return _out(wrap(elementwise(name)(a.reshape(a.shape + (1,) * b.ndim), b)), out)
    if method == "at":
        a, idx = inputs[0], conc_key(inputs[1])
        if not isinstance(a, SymArray):
            raise EngineError("ufunc.at on machine-number array")
        b = a.view(rnp.ndarray)
        ii = rnp.arange(a.size).reshape(a.shape)[idx]
        flat = b.reshape(-1)
        vals = rnp.broadcast_to(as_base(inputs[2]), ii.shape) if len(inputs) > 2 else None
        for j in rnp.ndindex(ii.shape):
            args = (flat[ii[j]],) + ((vals[j],) if vals is not None else ())
            flat[ii[j]] = (UF2 if vals is not None else UF1)[name](*args)
        b[...] = flat.reshape(b.shape)
        return None
    if method == "reduceat":
        a = as_base(inputs[0])
        idx = list(inputs[1])
        if a.ndim != 1:
            raise EngineError("reduceat on matrices")
        res = []
        for k, i in enumerate(idx):
            j = idx[k + 1] if k + 1 < len(idx) else len(a)
            res.append(a[i] if i >= j else as_base(reduce_(name, a[i:j]))[()])
        return symarr(_nested(res))
    raise EngineError(f"ufunc method {method}")


def _sym_ufunc(self, ufunc, method, *inputs, out=None, **kw):
    return array_ufunc(ufunc, method, inputs, out, kw)


def _sym_func(self, func, types, args, kwargs):
    from . import npshim
    f = npshim.lookup(func)
    if f is not None:
        return f(*args, **kwargs)
    return npshim.fallback(func, args, kwargs)


Sym.__array_ufunc__ = _sym_ufunc
SymBool.__array_ufunc__ = _sym_ufunc
Sym.__array_function__ = _sym_func
SymBool.__array_function__ = _sym_func
