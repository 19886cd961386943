"""Canonical Laurent-polynomial form of terms over atoms (variables, logs, roots, sums under powers, conditionals...).

A polynomial is a dict {monomial: Fraction}.  A monomial is (factors, ek): factors is a sorted tuple of (atom id, exponent) with
rational exponents, ek is the canonical key of the polynomial P of a factor exp(P) (() when absent).  Equal canonical forms mean equal
values wherever the terms are defined; definedness is a separate proof obligation."""
import math
from fractions import Fraction

from . import sym as S
from .sym import EngineError

F0, F1 = Fraction(0), Fraction(1)
ONE_M = ((), ())
MAXTERMS = 60000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "data", "sign", "isint")
    # sign: "+" >0, "0+" >=0, "?" unknown


atoms = []
_atab = {}


def reset():
    atoms.clear()
    _atab.clear()
    _memo.clear()
    _polykeys.clear()
    _ek.clear()
    _signmemo.clear()


def atom(kind, data, sign="?", isint=False):
    k = (kind, data)
    a = _atab.get(k)
    if a is None:
        a = Atom()
        a.id = len(atoms)
        a.kind, a.data, a.sign, a.isint = kind, data, sign, isint
        atoms.append(a)
        _atab[k] = a
    return a


_memo = {}
_polykeys = {}
_ek = {}
_signmemo = {}


def key(p):
    """canonical hashable key of a polynomial."""
    return tuple(sorted(p.items()))


def unkey(k):
    return dict(k)


def constp(q):
    return {ONE_M: q} if q else {}


def atomp(a, e=F1):
    return {(((a.id, e),), ()): F1}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def _mf(f, g):
    """multiply factor tuples; returns tuple and whether a reduction is needed."""
    if not f:
        return g, False
    if not g:
        return f, False
    d = dict(f)
    need = False
    for a, e in g:
        v = d.get(a)
        if v is None:
            d[a] = e
        else:
            v = v + e
            if v:
                d[a] = v
                if atoms[a].kind in REDUCIBLE:
                    need = True
            else:
                del d[a]
    return tuple(sorted(d.items())), need


REDUCIBLE = {"poly", "abs", "sin", "prime"}


def _mek(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _ek.get(k)
    if r is None:
        r = key(padd(unkey(a), unkey(b)))
        _ek[k] = r
    return r


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > MAXTERMS:
        raise TooBig()
    r = {}
    extra = None
    for (f1, e1), c1 in p.items():
        for (f2, e2), c2 in q.items():
            f, need = _mf(f1, f2)
            m = (f, _mek(e1, e2))
            c = c1 * c2
            if need:
                red = _reduce_mono(m)
                if red is not None:
                    extra = padd(extra or {}, pscale(red, c))
                    continue
            v = r.get(m, F0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if extra:
        r = padd(r, extra)
        if len(r) > MAXTERMS:
            raise TooBig()
    return r


def _reduce_mono(m):
    """expand reducible factors; None if nothing to do."""
    f, ek = m
    for i, (a, e) in enumerate(f):
        A = atoms[a]
        if A.kind == "poly" and e >= 1:
            n = e.numerator // e.denominator
            rest = list(f[:i]) + ([(a, e - n)] if e - n else []) + list(f[i + 1:])
            base = {(tuple(rest), ek): F1}
            P = unkey(A.data)
            for _ in range(n):
                base = pmul(base, P)
            return base
        if A.kind == "abs" and e >= 2:
            n = (e.numerator // e.denominator) // 2
            rest = list(f[:i]) + ([(a, e - 2 * n)] if e - 2 * n else []) + list(f[i + 1:])
            base = {(tuple(rest), ek): F1}
            P = unkey(A.data)
            P2 = pmul(P, P)
            for _ in range(n):
                base = pmul(base, P2)
            return base
        if A.kind == "sin" and e >= 2:
            n = (e.numerator // e.denominator) // 2
            rest = list(f[:i]) + ([(a, e - 2 * n)] if e - 2 * n else []) + list(f[i + 1:])
            base = {(tuple(rest), ek): F1}
            c = atom("cos", A.data)
            one_c2 = {ONE_M: F1, (((c.id, Fraction(2)),), ()): -F1}
            for _ in range(n):
                base = pmul(base, one_c2)
            return base
        if A.kind == "prime" and (e >= 1 or e < 0):
            n = e.numerator // e.denominator  # floor
            rest = list(f[:i]) + ([(a, e - n)] if e - n else []) + list(f[i + 1:])
            r = _reduce_mono((tuple(rest), ek))
            base = r if r is not None else {(tuple(rest), ek): F1}
            return pscale(base, Fraction(A.data) ** n)
    return None


def _factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_pow(q, e):
    """q>0 to a rational power, as a polynomial."""
    if e.denominator == 1:
        return constp(q ** int(e))
    r = constp(F1)
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for p, k in _factor(n).items():
            ee = e * k * s
            fl = ee.numerator // ee.denominator
            r = pscale(r, Fraction(p) ** fl)
            fr = ee - fl
            if fr:
                r = pmul(r, atomp(atom("prime", p, "+"), fr))
    return r


# ------------------------------------------------------------------ signs
def mono_sign(m):
    """sign of a monomial: '+', '0+', '?' (exponential factor is positive)."""
    s = "+"
    for a, e in m[0]:
        sg = atoms[a].sign
        if sg == "+":
            continue
        if sg == "0+":
            s = "0+"
            continue
        if e.denominator == 1 and e.numerator % 2 == 0:
            s = "0+"
            continue
        return "?"
    return s


def psign(p):
    """'+', '0+', '-', '0-', '0', '?'"""
    if not p:
        return "0"
    pos = neg = 0
    strict = False
    for m, c in p.items():
        s = mono_sign(m)
        if s == "?":
            return "?"
        if c > 0:
            pos += 1
        else:
            neg += 1
        if s == "+":
            strict = True
        if pos and neg:
            return "?"
    if pos:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


# ------------------------------------------------------------------ powers, exp, log
def content(p):
    """factor p = q * mono * rest with rest having leading coefficient 1 and no common monomial."""
    ms = list(p)
    common = dict(ms[0][0])
    for f, _ in ms[1:]:
        d = dict(f)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                # absent means exponent 0
                if common[a] > 0:
                    del common[a]
        for a, e in d.items():
            if e < 0 and a not in common:
                common[a] = e
    # negative exponents: must appear as the minimum
    for a in list(common):
        lo = min(dict(f).get(a, F0) for f, _ in ms)
        if lo:
            common[a] = lo
        else:
            del common[a]
    eks = {ek for _, ek in ms}
    ek = next(iter(eks)) if len(eks) == 1 else ()
    mono = (tuple(sorted(common.items())), ek)
    inv = (tuple((a, -e) for a, e in mono[0]), key(pscale(unkey(ek), Fraction(-1))) if ek else ())
    rest = pmul(p, {inv: F1}) if mono != ONE_M else p
    lead = rest[min(rest)]
    return lead, mono, pscale(rest, 1 / lead)


def mono_pow_ok(m, e):
    """can m^e be split over the factors?"""
    if e.denominator == 1:
        return True
    for a, x in m[0]:
        if atoms[a].sign == "?":
            if x.denominator == 1 and x.numerator % 2 == 0:
                continue
            return False
    return True


def mono_pow(m, e):
    """m^e as polynomial (abs atoms for even powers of unknown sign)."""
    f = {}
    need = False
    for a, x in m[0]:
        A = atoms[a]
        if A.sign == "?" and e.denominator != 1:
            A2 = abs_atom(atomp(A))
            ((k, _),) = A2
            if len(k[0]) != 1:
                raise EngineError("abs of atom")
            a2 = k[0][0][0]
            f[a2] = f.get(a2, F0) + x * e
        else:
            f[a] = f.get(a, F0) + x * e
        need = need or A.kind in REDUCIBLE or A.sign == "?"
    f = tuple(sorted((a, x) for a, x in f.items() if x))
    ek = key(pscale(unkey(m[1]), e)) if m[1] else ()
    mm = (f, ek)
    if need:
        r = _reduce_mono(mm)
        if r is not None:
            return r
    return {mm: F1}


def ppow(p, e):
    if e == 0:
        return constp(F1)
    if e == 1:
        return p
    if not p:
        return {} if e > 0 else atomp(atom("undef", "0^-1"))
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return pscale(mono_pow(m, e), c ** int(e))
        if c > 0 and mono_pow_ok(m, e):
            return pmul(mono_pow(m, e), const_pow(c, e))
        return atomp(atom("poly", key(p), "0+" if e.denominator % 2 == 0 or e.denominator != 1 else "?"), e)
    if e.denominator == 1 and e > 0:
        r = p
        base, n, r = p, int(e), None
        while n:
            if n & 1:
                r = base if r is None else pmul(r, base)
            n >>= 1
            if n:
                base = pmul(base, base)
        return r
    q, m, rest = content(p)
    s = psign(p)
    if e.denominator == 1:
        a = atom("poly", key(rest), {"+": "+", "0+": "0+"}.get(psign(rest), "?"))
        return pmul(pscale(mono_pow(m, e), q ** int(e)), atomp(a, e))
    if q > 0 and all(atoms[a].sign != "?" for a, _ in m[0]):
        sr = psign(rest)
        a = atom("poly", key(rest), "+" if sr == "+" else "0+")
        if a.sign == "?":
            a.sign = "0+"
        r = pmul(mono_pow(m, e), const_pow(q, e))
        return pmul(r, _poly_pow(a, e))
    a = atom("poly", key(p), "+" if s == "+" else "0+")
    if a.sign == "?":
        a.sign = "0+"
    return _poly_pow(a, e)


def _poly_pow(a, e):
    m = (((a.id, e),), ())
    r = _reduce_mono(m) if e >= 1 else None
    return r if r is not None else {m: F1}


def cleared(p, limit=20000):
    """p times powers of the sums it is divided by, expanded: zero exactly when p is zero wherever it is defined."""
    for _ in range(12):
        low = {}
        for f, _ek2 in p:
            for a, e in f:
                if e < 0 and atoms[a].kind == "poly" and e < low.get(a, F0):
                    low[a] = e
        if not low:
            return p
        a = max(low)
        k = -low[a]
        k = Fraction(-(-k.numerator // k.denominator))
        P = unkey(atoms[a].data)
        if len(p) * (len(P) ** int(k)) > limit:
            raise TooBig()
        groups = {}
        for (f, ek), c in p.items():
            d = dict(f)
            e = d.pop(a, F0) + k
            groups.setdefault(e, {})[(tuple(sorted(d.items())), ek)] = c
        out = {}
        for e, g in groups.items():
            n = e.numerator // e.denominator
            for _i in range(n):
                g = pmul(g, P)
            if e - n:
                g = pmul(g, atomp(atoms[a], e - n))
            out = padd(out, g)
        p = out
        if not p:
            return p
    return p


def abs_atom(p):
    s = psign(p)
    if s in ("+", "0+", "0"):
        return p
    if s in ("-", "0-"):
        return pscale(p, Fraction(-1))
    if len(p) == 1:
        (m, c), = p.items()
        r = constp(abs(c))
        f2 = []
        for a, e in m[0]:
            A = atoms[a]
            if A.sign != "?" or (e.denominator == 1 and e.numerator % 2 == 0):
                f2.append((a, e))
            elif len(m[0]) == 1 and e == 1 and abs(c) == 1 and not m[1]:
                return atomp(atom("abs", key({m: F1}), "0+"))
            else:
                r = pmul(r, ppow(abs_atom(atomp(A)), e))
        return pmul(r, {(tuple(f2), m[1]): F1})
    q, m, rest = content(p)
    r = constp(abs(q))
    if m != ONE_M:
        r = pmul(r, abs_atom({m: F1}))
    s = psign(rest)
    if s in ("+", "0+"):
        return pmul(r, rest)
    return pmul(r, atomp(atom("abs", key(rest), "0+")))


def pexp(p):
    """exp of a polynomial; rational multiples of log atoms with known sign become powers."""
    r = constp(F1)
    rest = {}
    for m, c in p.items():
        if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
            A = atoms[m[0][0][0]]
            if A.kind == "log":
                B = unkey(A.data)
                s = psign(B)
                if s in ("+", "0+"):
                    r = pmul(r, ppow(B, c))
                    continue
                if c.denominator == 1:
                    r = pmul(r, ppow(abs_atom(B), c))
                    continue
            if A.kind == "logc":
                r = pmul(r, const_pow(Fraction(A.data), c))
                continue
        rest[m] = c
    if not rest:
        return r
    return pmul(r, {((), key(rest)): F1})


def plog(p):
    """log|p|, additive over factors."""
    if not p:
        return atomp(atom("undef", "log0"))
    if len(p) == 1:
        (m, c), = p.items()
        r = {}
        mm = m
    else:
        c, mm, rest = content(p)
        if rest != {ONE_M: F1}:
            r = atomp(atom("log", key(rest)))
        else:
            r = {}
    c = abs(c)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in _factor(n).items():
            r = padd(r, pscale(atomp(atom("logc", q, "+")), Fraction(k * s)))
    for a, e in mm[0]:
        A = atoms[a]
        if A.kind == "poly":
            r = padd(r, pscale(plog(unkey(A.data)), e))
        elif A.kind == "prime":
            r = padd(r, pscale(atomp(atom("logc", A.data, "+")), e))
        elif A.kind == "abs":
            r = padd(r, pscale(plog(unkey(A.data)), e))
        else:
            r = padd(r, pscale(atomp(atom("log", key(atomp(A)))), e))
    if mm[1]:
        r = padd(r, unkey(mm[1]))
    return r


# ------------------------------------------------------------------ terms -> polynomials
def var_sign(n):
    name, lo, los, hi, his = n.data
    if lo is not None and (lo > 0 or (lo == 0 and los)):
        return "+"
    if lo is not None and lo == 0:
        return "0+"
    return "?"


def nf(root):
    r = _memo.get(root.id)
    if r is not None:
        return r
    for n in S.topo([root]):
        if n.id in _memo or isinstance(n, S.SymBool):
            continue
        _memo[n.id] = _nf1(n)
    return _memo[root.id]


def _nf1(n):
    op, a = n.op, n.args
    if op == "const":
        return constp(n.data)
    if op == "var":
        return atomp(atom("var", n.id, var_sign(n), n.isint)) if _setvar(n) else None
    if op == "add":
        r = padd(_memo[a[0].id], _memo[a[1].id])
        if len(r) > MAXTERMS:
            raise TooBig()
        return r
    if op == "mul":
        return pmul(_memo[a[0].id], _memo[a[1].id])
    if op == "div":
        return pmul(_memo[a[0].id], ppow(_memo[a[1].id], Fraction(-1)))
    if op == "pow":
        return ppow(_memo[a[0].id], a[1].data)
    if op == "powt":
        t = _memo[a[1].id]
        return pexp(pmul(t, plog(_memo[a[0].id])))
    if op == "exp":
        return pexp(_memo[a[0].id])
    if op == "log":
        return plog(_memo[a[0].id])
    if op == "abs":
        return abs_atom(_memo[a[0].id])
    if op == "floor":
        p = _memo[a[0].id]
        c = p.get(ONE_M, F0)
        fl = Fraction(math.floor(c))
        rest = padd(p, constp(-fl))
        if not [m for m in rest if m != ONE_M]:
            return constp(fl)
        return padd(atomp(atom("floor", key(rest), "?", True)), constp(fl))
    if op in ("cos", "sin"):
        p = _memo[a[0].id]
        if not p:
            return constp(F1 if op == "cos" else F0)
        lead = p[min(p)]
        neg = lead < 0
        if neg:
            p = pscale(p, Fraction(-1))
        r = atomp(atom(op, key(p)))
        return pscale(r, Fraction(-1)) if (neg and op == "sin") else r
    if op == "ite":
        pa, pb = _memo[a[1].id], _memo[a[2].id]
        if pa == pb:
            return pa
        s1, s2 = psign(pa), psign(pb)
        sg = "?"
        if s1 == "+" and s2 == "+":
            sg = "+"
        elif s1 in ("+", "0+", "0") and s2 in ("+", "0+", "0"):
            sg = "0+"
        boolnodes[a[0].id] = a[0]
        return atomp(atom("ite", (a[0].id, key(pa), key(pb)), sg, n.isint))
    raise EngineError("nf " + op)


varnodes = {}
boolnodes = {}


def _setvar(n):
    varnodes[n.id] = n
    return True
