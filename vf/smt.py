"""SMT encoding of canonical polynomial forms, and the solver calls."""
import hashlib
import math
import os
import time
from fractions import Fraction

import resource
import shutil
import subprocess
import threading
import z3

from . import nf as N
from . import sym as S
from .sym import EngineError

F0, F1 = Fraction(0), Fraction(1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.solver_s = 0.0
        self.encode_s = 0.0
        self.unknown = 0
        self.unsat = 0
        self.sat = 0
        self.by = {}
        self.max_s = 0.0

    def as_dict(self):
        return dict(queries=self.queries, cache_hits=self.cached, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_s=round(self.solver_s, 3), encode_s=round(self.encode_s, 3), max_query_s=round(self.max_s, 3), by=dict(self.by))


STATS = Stats()
_cache = {}


def reset():
    _cache.clear()
    N.reset()


# ------------------------------------------------------------------ encoder
class Encoder:
    """One query. Literals are added with .lit(node); finish with .assertions."""

    def __init__(self):
        self.dens = {}        # atom id -> lcm of exponent denominators
        self.exps = []        # exponent polynomial keys in order of appearance
        self.expset = set()
        self.atoms_used = []
        self.aset = set()
        self.side = []
        self.z = {}
        self.zexpr = {}
        self.bz = {}
        self.dmemo = {}
        self.denpos = []

    # ---- first pass: collect
    def collect_bool(self, b):
        st = [b]
        while st:
            n = st.pop()
            if n.id in self.dmemo:
                continue
            self.dmemo[n.id] = None
            if n.op in ("lt", "le", "eq"):
                d = N.padd(N.nf(n.args[1]), N.pscale(N.nf(n.args[0]), Fraction(-1)))
                self.dmemo[n.id] = d
                self.collect_poly(d)
            else:
                for x in n.args:
                    st.append(x)

    def collect_poly(self, p):
        for (f, ek) in p:
            for a, e in f:
                d = self.dens.get(a, 1)
                if e.denominator != 1:
                    d = d * e.denominator // math.gcd(d, e.denominator)
                self.dens[a] = d
                if a not in self.aset:
                    self.aset.add(a)
                    self.atoms_used.append(a)
                    self.collect_atom(N.atoms[a])
            if ek and ek not in self.expset:
                self.expset.add(ek)
                self.exps.append(ek)
                if len(ek) == 1 and ek[0][0] == N.ONE_M:
                    continue

    def collect_atom(self, A):
        k = A.kind
        if k in ("poly", "abs", "floor"):
            self.collect_poly(N.unkey(A.data))
        elif k == "ite":
            c, pa, pb = A.data
            self.collect_bool(N.boolnodes[c])
            self.collect_poly(N.unkey(pa))
            self.collect_poly(N.unkey(pb))

    # ---- exponential basis
    def build_exp_basis(self):
        basis = []      # list of (pivot mono, reduced poly, coords over originals)
        originals = []
        coords = {}
        for ek in self.exps:
            p = N.unkey(ek)
            co = {}
            for piv, bp, bco in basis:
                c = p.get(piv)
                if c:
                    p = N.padd(p, N.pscale(bp, -c))
                    for i, x in bco.items():
                        co[i] = co.get(i, F0) + c * x
            if p:
                i = len(originals)
                originals.append(ek)
                piv = min(p)
                lead = p[piv]
                # reduced = (orig - sum co*orig_i)/lead
                bco = {j: -x / lead for j, x in co.items()}
                bco[i] = F1 / lead
                basis.append((piv, N.pscale(p, F1 / lead), bco))
                coords[ek] = {i: F1}
            else:
                coords[ek] = {i: x for i, x in co.items() if x}
        den = [1] * len(originals)
        for co in coords.values():
            for i, x in co.items():
                den[i] = den[i] * x.denominator // math.gcd(den[i], x.denominator)
        self.expvars = []
        for i, ek in enumerate(originals):
            v = z3.Real(f"E{i}")
            self.expvars.append(v)
            self.side.append(v > 0)
            # sign knowledge: exp(P) with P sign known
            s = N.psign(N.unkey(ek))
            if s in ("+",):
                self.side.append(v > 1)
            elif s in ("0+",):
                self.side.append(v >= 1)
            elif s == "-":
                self.side.append(v < 1)
            elif s == "0-":
                self.side.append(v <= 1)
        self.expcoord = {ek: {i: int(x * den[i]) for i, x in co.items()} for ek, co in coords.items()}

    # ---- atoms
    def declare(self):
        self.build_exp_basis()
        for a in list(self.atoms_used):
            A = N.atoms[a]
            q = self.dens[a]
            if A.kind == "poly" and q == 1 and self._plain(N.unkey(A.data)):
                continue
            if A.kind in ("floor",) or (A.isint and A.kind == "var" and q == 1):
                iv = z3.Int(f"k{a}")
                v = z3.ToReal(iv)
            else:
                v = z3.Real(f"a{a}")
            self.z[a] = v
        for a in list(self.atoms_used):
            A = N.atoms[a]
            q = self.dens[a]
            if a not in self.z:
                continue
            v = self.z[a]
            val = v if q == 1 else zpow(v, q)
            if A.sign == "+":
                self.side.append(v > 0)
            elif A.sign == "0+":
                self.side.append(v >= 0)
            k = A.kind
            if k == "var":
                n = N.varnodes[A.data]
                _, lo, los, hi, his = n.data
                if lo is not None and not (lo == 0 and A.sign in ("+", "0+")):
                    self.side.append(val > rat(lo) if los else val >= rat(lo))
                if hi is not None:
                    self.side.append(val < rat(hi) if his else val <= rat(hi))
            elif k == "poly":
                num, den = self.poly(N.unkey(A.data))
                self.side.append(val * den == num if den is not None else val == num)
            elif k == "abs":
                num, den = self.poly(N.unkey(A.data))
                if den is not None:
                    w = z3.Real(f"w{a}")
                    self.side.append(w * den == num)
                    num = w
                self.side.append(v == z3.If(num >= 0, num, -num))
            elif k == "floor":
                num, den = self.poly(N.unkey(A.data))
                if den is not None:
                    w = z3.Real(f"w{a}")
                    self.side.append(w * den == num)
                    num = w
                self.side.append(v <= num)
                self.side.append(num < v + 1)
            elif k == "ite":
                c, pa, pb = A.data
                cz = self.boolz(N.boolnodes[c])
                out = []
                for nm, pk in (("x", pa), ("y", pb)):
                    num, den = self.poly(N.unkey(pk))
                    if den is not None:
                        w = z3.Real(f"w{nm}{a}")
                        self.side.append(w * den == num)
                        num = w
                    out.append(num)
                self.side.append(val == z3.If(cz, out[0], out[1]))
            elif k == "prime":
                self.side.append(val == A.data)
            elif k == "logc":
                x = math.log(A.data)
                if A.data != 1:
                    self.side.append(v > rat(Fraction(x) - Fraction(1, 10**9)))
                    self.side.append(v < rat(Fraction(x) + Fraction(1, 10**9)))
            elif k in ("cos", "sin"):
                self.side.append(v <= 1)
                self.side.append(v >= -1)
                num = self._pi_multiple(N.unkey(A.data))
                if num is not None:
                    x = math.cos(num) if k == "cos" else math.sin(num)
                    self.side.append(v > rat(Fraction(x) - Fraction(1, 10**9)))
                    self.side.append(v < rat(Fraction(x) + Fraction(1, 10**9)))
                if k == "sin":
                    c = N._atab.get(("cos", A.data))
                    if c is not None and c.id in self.z:
                        self.side.append(v * v + self.z[c.id] * self.z[c.id] == 1)

    def _pi_multiple(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1:
                A = N.atoms[m[0][0][0]]
                if A.kind == "var" and N.varnodes[A.data] is S.PI:
                    return float(c) * math.pi
        return None

    def _plain(self, p):
        """polynomial without negative exponents / exponentials with negative coordinates."""
        for f, ek in p:
            for a, e in f:
                if e < 0:
                    return False
            if ek:
                if any(x < 0 for x in self.expcoord[ek].values()):
                    return False
        return True

    # ---- polynomials
    def atom_pow(self, a, n):
        """atom ** (n/q), n >= 0 integer in units of the root."""
        if n == 0:
            return None
        v = self.z.get(a)
        if v is None:
            v = self.zexpr.get(a)
            if v is None:
                num, den = self.poly(N.unkey(N.atoms[a].data))
                assert den is None
                v = num
                self.zexpr[a] = v
        return zpow(v, n)

    def poly(self, p, even=False):
        """(numerator, denominator or None). denominator is positive if even (signs cleared by even powers)."""
        mins, emin = {}, {}
        ms = []
        for (f, ek), c in p.items():
            u = {a: int(e * self.dens[a]) for a, e in f}
            x = dict(self.expcoord[ek]) if ek else {}
            ms.append((u, x, c))
            for a, n in u.items():
                if n < mins.get(a, 0):
                    mins[a] = n
            for i, n in x.items():
                if n < emin.get(i, 0):
                    emin[i] = n
        if even:
            for a in mins:
                if N.atoms[a].sign == "?" and mins[a] % 2:
                    mins[a] -= 1
        terms = []
        for u, x, c in ms:
            fs = []
            for a in set(u) | set(mins):
                t = self.atom_pow(a, u.get(a, 0) - mins.get(a, 0))
                if t is not None:
                    fs.append(t)
            for i in set(x) | set(emin):
                n = x.get(i, 0) - emin.get(i, 0)
                if n:
                    fs.append(zpow(self.expvars[i], n))
            terms.append(zprod(c, fs))
        num = z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)
        den = None
        if mins or emin:
            fs = [self.atom_pow(a, -n) for a, n in mins.items()] + [zpow(self.expvars[i], -n) for i, n in emin.items()]
            den = zprod(F1, fs)
            for a in mins:
                self.nonzero(a)
        return num, den

    def nonzero(self, a):
        v = self.atom_pow(a, 1)
        if a not in self.bz:
            self.bz[a] = True
            self.side.append(v != 0 if N.atoms[a].sign == "?" else v > 0)

    def boolz(self, n):
        op = n.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvar":
            return z3.Bool("b!" + n.data)
        if op == "not":
            return z3.Not(self.boolz(n.args[0]))
        if op == "and":
            return z3.And([self.boolz(x) for x in n.args])
        if op == "or":
            return z3.Or([self.boolz(x) for x in n.args])
        if op == "eq":
            # keep both sides: the solver decides the identity
            a, b = self.sides(n)
            return a == b
        d = self.dmemo[n.id]
        num, _ = self.poly(d, even=True)
        return num > 0 if op == "lt" else num >= 0

    def sides(self, n):
        """both sides of an equation multiplied by their common denominator."""
        d = self.dmemo[n.id]
        pos = {m: c for m, c in d.items() if c > 0}
        neg = {m: -c for m, c in d.items() if c < 0}
        A = N.nf(n.args[0])
        B = N.nf(n.args[1])
        both = {}
        both.update(A)
        both.update(B)
        if len(A) + len(B) > 400 or any(N.atoms[a].id not in self.dens for f, _ in both for a, _ in f) or any(ek and ek not in self.expcoord for _, ek in both):
            num, _ = self.poly(d)
            return num, z3.RealVal(0)
        # clear with the denominators of both
        lhs = self._cleared(A, both)
        rhs = self._cleared(B, both)
        return lhs, rhs

    def _cleared(self, p, ref):
        mins, emin = {}, {}
        for (f, ek) in ref:
            for a, e in f:
                n = int(e * self.dens[a]) if (e * self.dens[a]).denominator == 1 else None
                if n is None:
                    raise EngineError("exponent denominators")
                if n < mins.get(a, 0):
                    mins[a] = n
            if ek:
                for i, n in self.expcoord[ek].items():
                    if n < emin.get(i, 0):
                        emin[i] = n
        for a in mins:
            self.nonzero(a)
        terms = []
        for (f, ek), c in p.items():
            u = {a: int(e * self.dens[a]) for a, e in f}
            x = dict(self.expcoord[ek]) if ek else {}
            fs = []
            for a in set(u) | set(mins):
                t = self.atom_pow(a, u.get(a, 0) - mins.get(a, 0))
                if t is not None:
                    fs.append(t)
            for i in set(x) | set(emin):
                n = x.get(i, 0) - emin.get(i, 0)
                if n:
                    fs.append(zpow(self.expvars[i], n))
            terms.append(zprod(c, fs))
        return z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)

    def collect_sides(self, b):
        """also register the atoms of both sides of equations (they may cancel in the difference)."""
        for n in S.topo([b]):
            if isinstance(n, S.SymBool) and n.op == "eq":
                A, B = N.nf(n.args[0]), N.nf(n.args[1])
                if len(A) + len(B) <= 400:
                    self.collect_poly(A)
                    self.collect_poly(B)


def rat(q):
    q = Fraction(q)
    return z3.Q(q.numerator, q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)


def zpow(v, n):
    if n == 1:
        return v
    r = v
    for _ in range(n - 1):
        r = r * v
    return r


def zprod(c, fs):
    r = None
    for f in fs:
        r = f if r is None else r * f
    if r is None:
        return rat(c)
    return r if c == 1 else rat(c) * r


# ------------------------------------------------------------------ queries
_fv = {}


def free_vars(n):
    r = _fv.get(n.id)
    if r is None:
        st = frozenset()
        if n.op == "var":
            st = frozenset() if n is S.PI else frozenset([n.id])
        elif n.op == "bvar":
            st = frozenset([n.id])
        else:
            # iterative for depth
            for m in S.topo([n]):
                if m.id in _fv:
                    continue
                if m.op == "var":
                    _fv[m.id] = frozenset() if m is S.PI else frozenset([m.id])
                elif m.op == "bvar":
                    _fv[m.id] = frozenset([m.id])
                else:
                    s = frozenset()
                    for x in m.args:
                        s = s | _fv[x.id]
                    _fv[m.id] = s
            return _fv[n.id]
        _fv[n.id] = r = st
    return r


def cone(pc, goal_nodes):
    """pc literals transitively sharing variables with the goal."""
    vs = set()
    for g in goal_nodes:
        vs |= free_vars(g)
    keep = [False] * len(pc)
    changed = True
    while changed:
        changed = False
        for i, l in enumerate(pc):
            if not keep[i]:
                f = free_vars(l)
                if not f or f & vs:
                    keep[i] = True
                    if not f <= vs:
                        vs |= f
                        changed = True
    return [l for i, l in enumerate(pc) if keep[i]]


def canonical(lits):
    idx, vmap, out = {}, {}, []
    for n in S.topo(lits):
        if n.op == "var":
            if n is S.PI:
                d = "PI"
            else:
                vmap[n.id] = len(vmap)
                d = (n.data[1:], n.isint)
        elif n.op == "bvar":
            vmap[n.id] = len(vmap)
            d = "b"
        else:
            d = n.data
        idx[n.id] = len(idx)
        out.append((n.op, d, tuple(idx[x.id] for x in n.args)))
    out.append(tuple(idx[l.id] for l in lits))
    return hashlib.sha1(repr(out).encode()).digest(), vmap


class Result:
    __slots__ = ("status", "model", "how", "why")

    def __init__(self, status, model=None, how="", why=""):
        self.status, self.model, self.how, self.why = status, model, how, why


DEBUG = float(os.environ.get("VF_DEBUG", 0))


def solve(lits, timeout=5.0, strategies=("z3",)):
    """satisfiability of a conjunction. model: {var node id: Fraction/float/bool}."""
    STATS.queries += 1
    lits = [l for l in lits if l.op != "true"]
    if any(l.op == "false" for l in lits):
        return Result("unsat", how="trivial")
    if not lits:
        return Result("sat", {}, how="trivial")
    h, vmap = canonical(lits)
    ck = (h, strategies)
    r = _cache.get(ck)
    if r is not None and (r.status != "unknown" or r.why != "timeout" or r.how >= f"{timeout:08.2f}"):
        STATS.cached += 1
        inv = None
        if r.model is not None:
            byidx = r.model
            m = {vid: byidx[i] for vid, i in vmap.items() if i in byidx}
        else:
            m = None
        return Result(r.status, m, r.how, r.why)
    t0 = time.time()
    try:
        enc = Encoder()
        for l in lits:
            enc.collect_bool(l)
            enc.collect_sides(l)
        if linear_unsat(enc, lits):
            STATS.unsat += 1
            STATS.by["linear"] = STATS.by.get("linear", 0) + 1
            STATS.solver_s += time.time() - t0
            res = Result("unsat", None, "linear")
            _cache[ck] = res
            return res
        enc.declare()
        zl = [enc.boolz(l) for l in lits]
    except N.TooBig:
        STATS.unknown += 1
        return Result("unknown", why="too big")
    STATS.encode_s += time.time() - t0
    res = None
    for stg in strategies:
        t1 = time.time()
        st, zm = run_strategy(stg, enc.side + zl, timeout)
        dt = time.time() - t1
        STATS.solver_s += dt
        STATS.max_s = max(STATS.max_s, dt)
        if st != "unknown":
            STATS.by[stg] = STATS.by.get(stg, 0) + 1
            model = None
            if st == "sat":
                model = extract(enc, zm, vmap) if zm is not None else None
            res = Result(st, model, stg)
            break
    if res is None:
        res = Result("unknown", None, f"{timeout:08.2f}", "timeout")
    setattr(STATS, res.status, getattr(STATS, res.status) + 1)
    if DEBUG and time.time() - t0 > DEBUG:
        import traceback
        print(f"SLOW {time.time() - t0:.1f}s {res.status} {strategies} {len(lits)} literals, {sum(len(str(z)) for z in zl)} chars; last {str(lits[-1])[:300]}")
        print("    " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_stack()[-9:-1])), flush=True)
    store = res
    if res.model is not None:
        store = Result(res.status, {vmap[v]: x for v, x in res.model.items() if v in vmap}, res.how)
    _cache[ck] = store
    return res


def ite_conditions(node):
    """conditions of the if-then-else terms left in the canonical form of a formula, those without inner ones first."""
    enc = Encoder()
    try:
        enc.collect_bool(node)
    except (N.TooBig, EngineError):
        return []
    out = []
    for a in enc.atoms_used:
        A = N.atoms[a]
        if A.kind == "ite":
            c = N.boolnodes[A.data[0]]
            if not any(c is x for x in out):
                out.append(c)
    out.sort(key=lambda c: any(n.op == "ite" for n in S.topo([c])))
    return out


def linear_unsat(enc, lits):
    """Is the conjunction unsatisfiable with every non-linear monomial of the canonical forms an unknown of its own?
    Signs of sums that are divided by (or under a root) are taken from the same linear facts first."""
    mono = {}
    memo = {}
    positive = set()
    solver = z3.SolverFor("QF_LRA")
    solver.set("timeout", 500)

    def sign(m):
        s = "+"
        for a, e in m[0]:
            sg = "+" if a in positive else N.atoms[a].sign
            if sg == "+":
                continue
            if sg == "0+" or (e.denominator == 1 and e.numerator % 2 == 0):
                s = "0+"
                continue
            return "?"
        return s

    def sign_fact(m, v):
        sg = sign(m)
        if sg == "+":
            solver.add(v > 0)
        elif sg == "0+":
            solver.add(v >= 0)

    def poly(p, scale):
        if scale and p:
            q, m, rest = N.content(p)
            if sign(m) == "+":
                p = N.pscale(rest, -1) if q < 0 else rest
        ts = []
        for m, c in p.items():
            if m == N.ONE_M:
                ts.append(rat(c))
                continue
            v = mono.get(m)
            if v is None:
                v = mono[m] = z3.Real(f"m{len(mono)}")
                sign_fact(m, v)
            ts.append(v if c == 1 else rat(c) * v)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def walk(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.op in ("true", "false"):
            r = z3.BoolVal(n.op == "true")
        elif n.op == "bvar":
            r = z3.Bool("b!" + n.data)
        elif n.op == "not":
            r = z3.Not(walk(n.args[0]))
        elif n.op in ("and", "or"):
            r = (z3.And if n.op == "and" else z3.Or)([walk(x) for x in n.args])
        else:
            d = enc.dmemo[n.id]
            if n.op == "eq":
                try:
                    zero = not N.cleared(d)
                except N.TooBig:
                    zero = False
                r = z3.BoolVal(True) if zero else poly(d, True) == 0
            else:
                p = poly(d, True)
                r = p > 0 if n.op == "lt" else p >= 0
        memo[n.id] = r
        return r
    zl = [walk(l) for l in lits]
    solver.add(zl)
    if solver.check() == z3.unsat:
        return True
    cand = [a for a in enc.atoms_used if N.atoms[a].kind == "poly" and N.atoms[a].sign != "+"][:8]
    more = False
    for a in cand:
        v = poly(N.unkey(N.atoms[a].data), False)
        solver.push()
        solver.add(v <= 0)
        if solver.check() == z3.unsat:
            positive.add(a)
        solver.pop()
        if a in positive:
            more = True
            for m, mv in mono.items():
                if any(x == a for x, _ in m[0]):
                    sign_fact(m, mv)
    for a in enc.atoms_used:
        if N.atoms[a].kind == "abs":
            v = poly(N.atomp(N.atoms[a]), False)
            w = poly(N.unkey(N.atoms[a].data), False)
            solver.add(v >= w, v >= -w)
            more = True
    return more and solver.check() == z3.unsat


def run_strategy(stg, assertions, timeout):
    ms = max(1, int(timeout * 1000))
    if stg == "z3":
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(assertions)
        r = guarded_check(s, timeout)
        return r, s.model() if r == "sat" else None
    if stg == "nlsat":
        g = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "purify-arith", z3.With("simplify", som=True), "qfnra-nlsat")
        s = g.solver()
        s.set("timeout", ms)
        s.add(assertions)
        r = guarded_check(s, timeout)
        return r, s.model() if r == "sat" else None
    if stg == "cvc5":
        return cvc5_check(assertions, timeout)
    raise ValueError(stg)


z3.set_param("memory_max_size", 3000)


def guarded_check(s, timeout):
    """z3's own timeout is not always honoured inside preprocessing: interrupt it from outside as well."""
    t = threading.Timer(1.5 * timeout + 1, s.ctx.interrupt)
    t.daemon = True
    t.start()
    try:
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"
    finally:
        t.cancel()


def cvc5_check(assertions, timeout):
    """cvc5 as a separate process: it ignores its own limits inside some non-linear procedures."""
    s = z3.Solver()
    s.add(assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    exe = shutil.which("cvc5")
    if exe is None:
        return "unknown", None

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    try:
        r = subprocess.run([exe, "--lang=smt2", f"--tlimit={int(timeout * 1000)}", "-"], input=txt, capture_output=True, text=True,
                           timeout=timeout + 3, preexec_fn=limits)
    except (subprocess.TimeoutExpired, OSError):
        return "unknown", None
    out = r.stdout.split()
    return ("unsat" if out[:1] == ["unsat"] else "unknown"), None


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return None


def extract(enc, zm, vmap):
    out = {}
    for a, v in enc.z.items():
        A = N.atoms[a]
        if A.kind == "var":
            x = zval(zm.eval(v, model_completion=True))
            if x is not None:
                out[A.data] = x ** enc.dens[a]
    for d in zm.decls():
        nm = d.name()
        if nm.startswith("b!"):
            n = S._table.get((S.SymBool, "bvar", (), nm[2:]))
            if n is not None:
                out[n.id] = bool(z3.is_true(zm[d]))
    return out
