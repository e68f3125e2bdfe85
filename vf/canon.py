"""Canonical forms: exponential polynomials over interned atoms.

Poly = { (mono, ek) : (coef, mag) }
   mono : sorted tuple of (atom index, rational exponent)
   ek   : index of an interned exponent polynomial P (term factor exp(P)), 0 = 1
   coef : complex number;  mag : sum of |contributions| (rounding scale)

sin/cos are rewritten through exp(+-iP); powers and logs of monomials are
distributed where the base is known positive; sums under a non-natural power
become interned "sum atoms" with a definition, and products that grow beyond
`limit` terms are cut the same way.  Interning proposes an existing atom when
the numeric signatures agree and accepts it only when the difference is a zero
polynomial after clearing denominators and expanding definitions (and the SMT
solver confirms, see `Solver.poly_zero`).
"""
import math
from fractions import Fraction
import numpy as np

from . import expr as E
from .expr import Node, Unsupported

TOL = 1e-12
F0, F1 = 0, 1


def nz(q):
    """Exponent as int when integral (exact either way; ints are cheap)."""
    if type(q) is int:
        return q
    if q.denominator == 1:
        return int(q.numerator)
    return q if type(q) is Fraction else Fraction(q)



class TooBig(Exception):
    pass


class Undefined(Unsupported):
    """The code evaluates to NaN on this path (root or log of a negative)."""


class NeedSplit(Exception):
    def __init__(self, cond, atom, poly):
        self.cond, self.atom, self.poly = cond, atom, poly


class Atom:
    __slots__ = ("id", "kind", "data", "val", "defn", "iv", "ratio")

    def __init__(self, id, kind, data, val, defn, iv):
        self.id, self.kind, self.data, self.val, self.defn, self.iv = id, kind, data, val, defn, iv


INF = float("inf")


def iv_mul(a, b):
    c = []
    for x in a:
        for y in b:
            p = x * y
            c.append(0.0 if p != p else p)
    return (min(c), max(c))


def iv_add(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    return (lo if lo == lo else -INF, hi if hi == hi else INF)


def iv_pow(a, q):
    lo, hi = a
    try:
        if q.denominator == 1:
            n = int(q)
            if n >= 0:
                if n % 2 == 0:
                    m = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** n
                    return (m, max(abs(lo), abs(hi)) ** n)
                return (lo ** n, hi ** n)
            if lo > 0 or hi < 0:
                c = [lo ** n if abs(lo) != INF else 0.0, hi ** n if abs(hi) != INF else 0.0]
                return (min(c), max(c))
            if n % 2 == 0:
                return (0.0, INF)
            if lo == 0:
                return (hi ** n if hi != INF else 0.0, INF)
            return (-INF, INF)
        lo = max(lo, 0.0)
        if q > 0:
            return (lo ** float(q), hi ** float(q) if hi != INF else INF)
        return (hi ** float(q) if hi not in (INF, 0.0) else (0.0 if hi == INF else INF), lo ** float(q) if lo > 0 else INF)
    except OverflowError:
        return (-INF, INF) if q.denominator == 1 and int(q) % 2 else (0.0, INF)


class Canon:
    def __init__(self, env, box, limit=40, hard=20000, solver=None, generic=True, seed=7):
        """env: var name -> sample vector; box: var name -> (lo, hi)."""
        self.env = {k: np.asarray(v, np.longdouble) for k, v in env.items()}
        self.K = len(next(iter(env.values()))) if env else 1
        self.box = box
        self.limit = limit
        self.hard = hard
        self.atoms = []
        self.var_atom = {}
        self.fn_atoms = {}
        self.sum_index = {}
        self.exps = [None]
        self._epv = [np.zeros(self.K, np.clongdouble)]
        self.generic = generic
        self.rng = np.random.default_rng(seed)
        self.memo_c = {}
        self.memo_cmp = {}
        self.modular = True
        self.exp_val = [np.ones(self.K, np.clongdouble)]
        self.exp_index = {}
        self.exp_mul = {}
        self.memo = {}
        self.memo_path = {}
        self.path = {}
        self.cond_memo = {}
        self.expand_memo = {}
        self.solver = solver
        self.stats = dict(atoms=0, zero_tests=0, interned=0, splits=0)
        self.pathdep = {}
        self.lemma_pos = set()
        self.poly_vals = {}
        self.dens = {}
        self.prods = []
        self.signq = set()
        self.sign_solver = None
        self.dep = {}      # path atoms consulted by the current computation
        self.deps = {}     # node id -> path atoms its value depends on
        self.pmemo = {}    # node id -> [(deps, poly)] over all paths

    # ---- atoms -----------------------------------------------------------
    def new_atom(self, kind, data, val, defn=None, iv=(-INF, INF)):
        a = Atom(len(self.atoms), kind, data, val, defn, iv)
        self.atoms.append(a)
        self.stats["atoms"] += 1
        return a

    def var(self, name):
        a = self.var_atom.get(name)
        if a is None:
            v = self.env.get(name)
            if v is None:
                raise Unsupported(f"no sample values for {name}")
            a = self.new_atom("var", name, v.astype(np.clongdouble), iv=self.box.get(name, (-INF, INF)))
            self.var_atom[name] = a
        return a

    # ---- numeric values of polynomials -------------------------------------
    def pval(self, P):
        with np.errstate(all="ignore"):
            s = np.zeros(self.K, np.clongdouble)
            for (m, ek), (c, _) in P.items():
                t = np.clongdouble(c) * self.exp_val[ek]
                for a, q in m:
                    t = t * self.apow(a, q)
                s = s + t
            return s

    def pmag(self, P):
        with np.errstate(all="ignore"):
            s = np.zeros(self.K, np.longdouble)
            for (m, ek), (c, mg) in P.items():
                t = np.longdouble(mg) * np.abs(self.exp_val[ek])
                for a, q in m:
                    t = t * np.abs(self.apow(a, q))
                s = s + t
            return s

    def apow(self, a, q):
        key = (a, q)
        v = self.poly_vals.get(key)
        if v is None:
            b = self.atoms[a].val
            if q.denominator == 1:
                v = b ** int(q)
            else:
                v = np.where(b.real < 0, np.nan, np.abs(b) ** (np.longdouble(q.numerator) / np.longdouble(q.denominator))).astype(np.clongdouble)
            self.poly_vals[key] = v
        return v

    # ---- basic polynomial algebra ---------------------------------------------
    @staticmethod
    def const(c):
        c = complex(c)
        return {((), 0): (c, abs(c))} if c != 0 else {}

    @staticmethod
    def of_atom(a, q=F1):
        return {(((a.id, nz(q)),), 0): (1 + 0j, 1.0)}

    def add(self, P, Q, s=1.0):
        if len(Q) > len(P) and s == 1.0:
            P, Q = Q, P
        R = dict(P)
        for k, (c, m) in Q.items():
            o = R.get(k)
            if o is None:
                R[k] = (s * c, m * abs(s))
            else:
                n = o[0] + s * c
                mg = o[1] + m * abs(s)
                R[k] = (n, mg)
        # drop cancelled terms
        dead = [k for k in Q if k in R and abs(R[k][0]) <= TOL * R[k][1]]
        for k in dead:
            del R[k]
        return R

    def scale(self, P, s):
        return {k: (c * s, m * abs(s)) for k, (c, m) in P.items()} if s != 0 else {}

    def mmul(self, m1, m2):
        if not m1:
            return m2, None
        if not m2:
            return m1, None
        d = dict(m1)
        exp = None
        for a, q in m2:
            p = d.get(a)
            if p is None:
                d[a] = q
                continue
            r = p + q
            if r:
                d[a] = r if type(r) is int else nz(r)
            else:
                del d[a]
        return tuple(sorted(d.items())), exp

    def mul(self, P, Q):
        if len(P) > len(Q):
            P, Q = Q, P
        if len(P) * len(Q) > self.hard:
            raise TooBig()
        R = {}
        for (m1, e1), (c1, g1) in P.items():
            for (m2, e2), (c2, g2) in Q.items():
                m, _ = self.mmul(m1, m2)
                if e1 == 0:
                    e, f = e2, 1.0
                elif e2 == 0:
                    e, f = e1, 1.0
                else:
                    e, f = self.emul(e1, e2)
                k = (m, e)
                c = c1 * c2 * f
                g = g1 * g2 * abs(f)
                o = R.get(k)
                R[k] = (c, g) if o is None else (o[0] + c, o[1] + g)
        R = {k: v for k, v in R.items() if abs(v[0]) > TOL * v[1]}
        return self.fix(R)

    def fix(self, R):
        """Normalise monomials: even powers of abs atoms, natural powers of
        sum-atom square roots are left to zero tests."""
        bad = None
        for (m, e) in R:
            for a, q in m:
                at = self.atoms[a]
                if at.kind == "abs" and q.denominator == 1 and q % 2 == 0:
                    bad = True
                elif at.kind == "sum" and q.denominator == 1 and q > 0 and len(at.defn) <= 6 and q <= 2 and at.data == "alg":
                    bad = True
        if not bad:
            return R
        out = {}
        for (m, e), (c, g) in R.items():
            rest = []
            T = None
            for a, q in m:
                at = self.atoms[a]
                if at.kind == "abs" and q.denominator == 1 and q % 2 == 0:
                    X = self.ipow(at.defn, int(q))
                elif at.kind == "sum" and at.data == "alg" and q.denominator == 1 and 0 < q <= 2 and len(at.defn) <= 6:
                    X = self.ipow(at.defn, int(q))
                else:
                    rest.append((a, q))
                    continue
                T = X if T is None else self.mul(T, X)
            base = {(tuple(rest), e): (c, g)}
            if T is not None:
                base = self.mul(base, T)
            out = self.add(out, base)
        return out

    def ipow(self, P, n):
        R = self.const(1)
        for _ in range(n):
            R = self.mul(R, P)
        return R

    # ---- exponentials ------------------------------------------------------------
    def emul(self, e1, e2):
        """exp(P1)*exp(P2) -> (index, factor)."""
        k = (e1, e2) if e1 <= e2 else (e2, e1)
        r = self.exp_mul.get(k)
        if r is None:
            r = self.exp_of(self.add(self.exps[e1], self.exps[e2]))
            # exp_of may return a general polynomial only for algebraic atoms,
            # which never appear inside interned exponents
            (key, (c, _)), = r.items()
            r = (key[1], c)
            assert key[0] == ()
            self.exp_mul[k] = r
        return r

    def exp_of(self, P):
        """Poly for exp(P)."""
        if not P:
            return self.const(1)
        P = dict(P)
        c0 = P.pop(((), 0), None)
        fac = 1.0 + 0j
        if c0 is not None:
            fac = _cexp(c0[0])
        if not P:
            return self.const(fac)
        # exp(q*log x) -> x^q ; exp(i*n*atan2(..)) etc -> algebraic
        R = None
        for k in list(P):
            m, ek = k
            if ek == 0 and len(m) == 1 and m[0][1] == 1:
                at = self.atoms[m[0][0]]
                c = P[k][0]
                X = None
                if at.kind == "fn" and at.data[0] == "log" and abs(c.imag) == 0:
                    q = E.snap_exp(c.real)
                    if q.denominator <= 1200:
                        X = self.power(at.data[1][0], q)
                elif at.kind == "fn" and at.data[0] in ("atan2", "acos", "atan", "asin") and c.real == 0 and abs(c.imag - round(c.imag)) < 1e-12 and 0 < abs(c.imag) <= 6:
                    X = self.angle(at, int(round(c.imag)))
                if X is not None:
                    del P[k]
                    R = X if R is None else self.mul(R, X)
        T = self.const(fac)
        if P:
            i, f = self.exp_intern(P)
            T = {((), i): (fac * f, abs(fac * f))}
        return T if R is None else self.mul(R, T)

    def angle(self, at, n):
        """exp(i*n*angle atom) as an algebraic expression."""
        name = at.data[0]
        i = self.const(1j if n > 0 else -1j)
        if name == "atan2":
            y, x = at.data[1]
            r = self.power(self.add(self.mul(x, x), self.mul(y, y)), Fraction(-1, 2))
            base = self.mul(self.add(x, self.mul(i, y)), r)
        else:
            (u,) = at.data[1]
            one = self.const(1)
            if name == "atan":
                base = self.mul(self.add(one, self.mul(i, u)), self.power(self.add(one, self.mul(u, u)), Fraction(-1, 2)))
            else:
                s = self.power(self.add(one, self.mul(u, u), -1.0), Fraction(1, 2))
                base = self.add(u, self.mul(i, s)) if name == "acos" else self.add(s, self.mul(i, u))
        return self.ipow(base, abs(n))

    def exp_intern(self, P):
        """Intern exponent P (no constant term); returns (index, factor)."""
        skey = tuple(sorted(P))
        for i in self.exp_index.setdefault(skey, []):
            Q = self.exps[i]
            if all(abs(Q[k][0] - P[k][0]) <= 50 * TOL * max(P[k][1], Q[k][1]) for k in skey):
                return i, 1.0
        with np.errstate(all="ignore"):
            pv = self.pval(P)
            val = np.exp(pv)
        if len(P) <= 400:
            pm = np.max(self.pmag(P))
            for i in range(1, len(self.exps)):
                d = pv - self._epv[i]
                c = d[0]
                if np.all(np.abs(d - c) <= 1e-13 * (pm + 1)) and self.zero(self.add(self.add(P, self.exps[i], -1.0), {((), 0): (complex(c), float(pm) + 1.0)}, -1.0)):
                    c = complex(c) if abs(c) > 1e-12 * (pm + 1) else 0
                    return i, _cexp(c)
        self.exps.append(P)
        self._epv.append(pv)
        self.exp_val.append(val)
        i = len(self.exps) - 1
        self.exp_index[skey].append(i)
        return i, 1.0

    # ---- sums as atoms ---------------------------------------------------------------
    def content(self, P):
        """P = c * mono * P' with P' monic, monomial content removed."""
        keys = list(P)
        common = dict(keys[0][0])
        for m, _ in keys[1:]:
            d = dict(m)
            for a in list(common):
                q = d.get(a)
                if q is None:
                    q = F0
                if (common[a] > 0 and q > 0) or (common[a] < 0 and q < 0):
                    common[a] = min(common[a], q, key=abs) if common[a] > 0 else max(common[a], q)
                    if common[a] > 0:
                        common[a] = min(common[a], q)
                else:
                    del common[a]
        # keep only integer-compatible content for fractional spreads: allowed,
        # since x^p * (...) with any rational p is exact for x > 0
        for a in list(common):
            if common[a].denominator != 1 and not self.pos_atom(a):
                del common[a]
        inv = tuple(sorted((a, -q) for a, q in common.items()))
        Q = {}
        for (m, e), v in P.items():
            Q[(self.mmul(m, inv)[0], e)] = v
        eks = {e for _, e in Q}
        if len(eks) == 1 and 0 not in eks:
            ek = eks.pop()
            Q = {(m, 0): v for (m, _), v in Q.items()}
        else:
            ek = 0
        lead = sorted(Q, key=repr)[0]
        c = Q[lead][0]
        Q = {k: (v[0] / c, v[1] / abs(c)) for k, v in Q.items()}
        return c, tuple(sorted(common.items())), ek, Q

    def sum_atom(self, P, alg=False):
        """Return (coef, mono, ek) such that P = coef * mono(with sum atom) * exp."""
        c, mono, ek, Q = self.content(P)
        if len(Q) == 1:
            ((m, e),) = Q
            mm = self.mmul(mono, m)[0]
            if e:
                if ek:
                    ek, f = self.emul(ek, e)
                    c *= f
                else:
                    ek = e
            return c, mm, ek
        E2 = self.simplify(Q)
        if E2 is not None:
            # Q is a smaller polynomial once inner sums are multiplied out
            m0, E2 = E2
            c2, m2, e2 = self.sum_atom(E2, alg)
            m2 = self.mmul(m0, m2)[0]
            f = 1.0
            if ek and e2:
                ek, f = self.emul(ek, e2)
            else:
                ek = ek or e2
            return c * c2 * f, self.mmul(mono, m2)[0], ek
        if len(Q) == 3:
            for sg in (1.0, -1.0):
                r = self.square_root(self.scale(Q, sg))
                if r is not None:
                    c2, m2, _ = self.sum_atom(r)
                    return c * sg * c2 * c2, self.mmul(mono, tuple((a, nz(2 * p)) for a, p in m2))[0], ek
        if self.piv(Q)[1] <= 0:
            Q, c = self.scale(Q, -1.0), -c
        v = self.pval(Q)
        ok = np.isfinite(v)
        key = None
        if ok.all() and v[0] != 0:
            r = v / v[0]
            key = self.rkey(r)
            for kk in key:
                for a in self.sum_index.get(kk, []):
                    at = self.atoms[a]
                    k = complex(v[0] / at.val[0])
                    if np.all(np.abs(v - np.clongdouble(k) * at.val) <= 1e-9 * np.abs(v)):
                        k = self.best_ratio(Q, at.defn, k)
                        if self.zero(self.add(Q, self.scale(at.defn, k), -1.0), at=True):
                            self.stats["interned"] += 1
                            return c * k, self.mmul(mono, ((a, F1),))[0], ek
        at = self.new_atom("sum", "alg" if alg else "cut", v, Q, self.piv(Q))
        if key is not None:
            for kk in key:
                self.sum_index.setdefault(kk, []).append(at.id)
        return c, self.mmul(mono, ((at.id, F1),))[0], ek

    def simplify(self, Q):
        """(mono, P) with Q = mono * P, short inner sums multiplied out, when
        that makes it shorter."""
        if len(Q) > 8:
            return None
        lo = {}
        for (m, e) in Q:
            for a, q in m:
                at = self.atoms[a]
                if at.kind == "sum" and at.data != "prod":
                    if len(at.defn) > 3:
                        return None
                    lo[a] = min(lo.get(a, q), q)
        if not lo:
            return None
        for (m, e) in Q:
            d = dict(m)
            for a in lo:
                q = d.get(a, 0)
                lo[a] = min(lo[a], q)
        for (m, e) in Q:
            d = dict(m)
            for a in lo:
                if Fraction(d.get(a, 0) - lo[a]).denominator != 1 or d.get(a, 0) - lo[a] > 4:
                    return None
        mono = tuple(sorted((a, q) for a, q in lo.items() if q))
        inv = tuple((a, -q) for a, q in mono)
        out = {}
        for (m, e), v in Q.items():
            m = self.mmul(m, inv)[0]
            T = {(tuple((a, q) for a, q in m if a not in lo), e): v}
            for a, q in m:
                if a in lo:
                    T = self.mul(T, self.ipow(self.atoms[a].defn, int(q)))
            out = self.add(out, T)
            if len(out) > 24:
                return None
        if not out or any(a in lo for (m, _) in out for a, _ in m):
            return None
        if len(out) < len(Q) or (len(out) <= 3 and (self.square_root(out) is not None or self.square_root(self.scale(out, -1.0)) is not None)):
            return mono, out
        return None

    def square_root(self, P):
        """B when P = B^2 for a short real Laurent polynomial B (longhand)."""
        if not 3 <= len(P) <= 40 or any(e or abs(v[0].imag) for (m, e), v in P.items()):
            return None
        ids = sorted({a for (m, _) in P for a, _ in m})

        def order(m):
            d = dict(m)
            return tuple(d.get(a, 0) for a in ids)

        lead = max(P, key=lambda k: order(k[0]))
        c = P[lead][0].real
        if c <= 0 or any(q.denominator != 1 or q % 2 for _, q in lead[0]):
            return None
        low = min(P, key=lambda k: order(k[0]))
        if P[low][0].real <= 0 or any(q.denominator != 1 or q % 2 for _, q in low[0]):
            return None
        m1 = tuple((a, nz(Fraction(q, 2))) for a, q in lead[0])
        c1 = math.sqrt(c)
        B = {(m1, 0): (complex(c1), c1)}
        inv = tuple((a, -q) for a, q in m1)
        scale = {k: v[1] for k, v in P.items()}
        top = max(abs(v[0]) for v in P.values())
        R = {k: v for k, v in P.items() if k != lead}
        last = order(m1)
        for _ in range(10):
            R = {k: v for k, v in R.items() if abs(v[0]) > 1e-12 * max(v[1], scale.get(k, 0.0))}
            if not R:
                return B
            k = max(R, key=lambda k: order(k[0]))
            m = self.mmul(k[0], inv)[0]
            if any(a not in ids for a, _ in m) or any(q.denominator != 1 for _, q in m) or not order(m) < last:
                return None
            last = order(m)
            t = R[k][0].real / (2 * c1)
            f = Fraction(t / c1).limit_denominator(1000)
            if abs(float(f) - t / c1) <= 1e-12 * abs(float(f)):
                t = float(f) * c1
            T = {(m, 0): (complex(t), abs(t))}
            R = self.add(self.add(R, self.mul(B, T), -2.0), self.mul(T, T), -1.0)
            B = self.add(B, T)
        return None

    def best_ratio(self, Q, D, k):
        if abs(k - 1) < 1e-9:
            return 1.0
        if abs(k + 1) < 1e-9:
            return -1.0
        common = [x for x in Q if x in D]
        if len(common) == len(Q) == len(D):
            return Q[common[0]][0] / D[common[0]][0]
        k = k.real if abs(k.imag) < 1e-12 * abs(k) else k
        if isinstance(k, float):
            f = Fraction(k).limit_denominator(10000)
            if abs(float(f) - k) < 1e-11 * abs(k):
                return float(f)
        return k

    def rkey(self, r):
        out = []
        for off in (0.0, 0.5):
            k = []
            for j in range(1, min(self.K, 4)):
                x = complex(r[j])
                s = abs(x) if x != 0 else 1.0
                e = math.floor(math.log10(s)) if s > 0 and math.isfinite(s) else 0
                u = 10.0 ** (e - 7)
                k.append((math.floor(x.real / u + off), math.floor(x.imag / u + off)))
            out.append((off, tuple(k)))
        return out

    def piv(self, P):
        """Interval of a (real) polynomial over the box."""
        t = (0.0, 0.0)
        for (m, e), (c, _) in P.items():
            if e or abs(c.imag) > 0:
                return (-INF, INF)
            x = (c.real, c.real)
            for a, q in m:
                x = iv_mul(x, iv_pow(self.atoms[a].iv, q))
            t = iv_add(t, x)
        return t

    def pos_atom(self, a):
        at = self.atoms[a]
        if at.iv[0] >= 0:
            return True
        if a in self.lemma_pos:
            return True
        g = self.pg(a)
        return g is not None and g >= 0

    def pg(self, a):
        """Sign of an atom on the current path, recording the dependency."""
        g = self.path.get(a)
        self.dep[a] = g
        return g

    def sgn(self, P):
        """+1 / -1 when P >= 0 / <= 0 is known over the box, else 0."""
        lo, hi = self.piv(P)
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        if len(P) > 1:
            c, m, ek, Q = self.content(P)
            if ek == 0 and c.imag == 0 and all(self.pos_atom(a) or (q.denominator == 1 and q % 2 == 0) for a, q in m):
                lo, hi = self.piv(Q)
                s = 1 if c.real > 0 else -1
                if lo >= 0:
                    return s
                if hi <= 0:
                    return -s
                k = self.find_sum(Q)
                if k is not None:
                    a, f = k
                    if self.pos_atom(a):
                        return s if f > 0 else -s
        elif len(P) == 1:
            (((m, e), (c, _)),) = P.items()
            if e == 0 and c.imag == 0 and all(self.pos_atom(a) or (q.denominator == 1 and q % 2 == 0) for a, q in m):
                return 1 if c.real > 0 else -1
        return 0

    def find_sum(self, Q):
        v = self.pval(Q)
        if not np.isfinite(v).all() or v[0] == 0:
            return None
        for kk in self.rkey(v / v[0]):
            for a in self.sum_index.get(kk, []):
                at = self.atoms[a]
                k = complex(v[0] / at.val[0])
                if abs(k.imag) > 1e-12 * abs(k):
                    continue
                if np.all(np.abs(v - np.clongdouble(k) * at.val) <= 1e-9 * np.abs(v)):
                    k = self.best_ratio(Q, at.defn, k)
                    if self.zero(self.add(Q, self.scale(at.defn, k), -1.0), at=True):
                        return a, (k.real if isinstance(k, complex) else k)
        return None

    # ---- powers ---------------------------------------------------------------------
    def power(self, P, q):
        q = nz(Fraction(q))
        if q == 0:
            return self.const(1)
        if q == 1:
            return P
        if not P:
            if q > 0:
                return {}
            raise Unsupported("division by a zero polynomial")
        if len(P) == 1:
            (((m, e), (c, g)),) = P.items()
            return self.mono_power(c, m, e, q)
        if q.denominator == 1 and 0 < q <= 6 and len(P) ** int(q) <= max(self.limit * 4, 400):
            try:
                return self.ipow(P, int(q))
            except TooBig:
                pass
        if q.denominator == 2 and len(P) <= 40:
            c, mono, _, Q = self.content(P)
            Q2 = self.simplify(Q)
            if Q2 is not None:
                mono = self.mmul(mono, Q2[0])[0]
                c2, m2, _, Q = self.content(Q2[1])
                mono, c = self.mmul(mono, m2)[0], c * c2
            r = self.square_root(Q)
            if r is not None:
                if c.imag == 0 and c.real > 0 and all(p.denominator == 1 and p % 2 == 0 or self.pos_atom(a) for a, p in mono):
                    out = self.mono_power(c, mono, 0, q)
                    return self.mul(out, self.power(self.abs_poly(r), nz(2 * q)))
        if q.denominator != 1 and self.cplx(P):
            s, m = self.real_parts(P)
            return self.mono_power(complex(s), m, 0, q)
        c, m, ek = self.sum_atom(P, alg=True)
        return self.mono_power(c, m, ek, q)

    def real_parts(self, P):
        """Real quantity written with complex exponentials -> (real scale,
        monomial): the monomial content times a real atom."""
        _, mono, _, _ = self.content(P)
        inv = tuple((a, -q) for a, q in mono)
        Q = {(self.mmul(m, inv)[0], e): v for (m, e), v in P.items()}
        s, at = self.real_atom(Q)
        return s, self.mmul(mono, ((at.id, F1),))[0]

    def mono_power(self, c, m, e, q):
        """(c * m * exp)^q."""
        out = self.const(1)
        if q.denominator == 1:
            cq = c ** int(q)
            mm = tuple((a, nz(p * q)) for a, p in m)
            R = {(mm, 0): (cq, abs(cq))}
        else:
            # fractional power: distribute over factors known non-negative;
            # the rest (if any) must be jointly non-negative
            if c.imag != 0:
                raise Unsupported("fractional power of complex coefficient")
            pos, oth = [], []
            for a, p in m:
                if self.pos_atom(a):
                    pos.append((a, nz(p * q)))
                elif p.denominator == 1 and p % 2 == 0:
                    ab = self.abs_atom(a)
                    pos.append((ab, nz(p * q)))
                else:
                    oth.append((a, p))
            if not oth:
                if c.real < 0:
                    raise Undefined("fractional power of a negative quantity")
                cq = c.real ** float(q) if q.denominator != 2 else math.sqrt(c.real) ** int(q.numerator)
                R = {(tuple(sorted(pos)), 0): (complex(cq), abs(cq))}
                R = self.merge_pos(R)
            else:
                # sign(c)*prod(oth) >= 0 is required for the value to be real:
                # absorb |c| and keep one atom for the remaining product
                s = 1.0 if c.real > 0 else -1.0
                cq = abs(c.real) ** float(q)
                if len(oth) == 1 and (oth[0][1]).denominator == 1 and s > 0:
                    # x^p with p odd: defined only for x >= 0
                    a, p = oth[0]
                    pos.append((a, nz(p * q)))
                    R = self.merge_pos({(tuple(sorted(pos)), 0): (complex(cq), abs(cq))})
                    self.lemma_pos.add(a)
                else:
                    sub = {(tuple(oth), 0): (complex(s), 1.0)}
                    at = self.prod_atom(sub)
                    pos.append((at.id, q))
                    R = self.merge_pos({(tuple(sorted(pos)), 0): (complex(cq), abs(cq))})
        if e:
            X = self.exp_of(self.scale(self.exps[e], float(q)))
            R = self.mul(R, X)
        else:
            R = self.fix(R)
        return R

    def prod_atom(self, sub):
        """Atom standing for a product that must be >= 0 as a whole."""
        v = self.pval(sub)
        for at in self.prods:
            if np.all(np.abs(v - at.val) <= 1e-9 * np.abs(v)) and self.zero(self.add(sub, at.defn, -1.0)):
                return at
        at = self.new_atom("sum", "prod", v, sub, (max(0.0, self.piv(sub)[0]), self.piv(sub)[1]))
        self.prods.append(at)
        return at

    def merge_pos(self, R):
        ((m, e), v), = R.items()
        for a, q in m:
            if q.denominator > 1:
                self.dens[a] = math.lcm(self.dens.get(a, 1), q.denominator)
        d = {}
        for a, q in m:
            d[a] = d.get(a, F0) + q
        return {(tuple(sorted((a, nz(q)) for a, q in d.items() if q)), e): v}

    def abs_atom(self, a):
        at = self.fn_atoms.get(("abs", a))
        if at is None:
            b = self.atoms[a]
            lo, hi = b.iv
            hi2 = max(abs(lo), abs(hi))
            lo2 = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
            at = self.new_atom("abs", None, np.abs(b.val).astype(np.clongdouble), self.of_atom(b), (lo2, hi2))
            self.fn_atoms[("abs", a)] = at
        return at.id

    def abs_poly(self, P):
        s = self.sgn(P)
        if s > 0:
            return P
        if s < 0:
            return self.scale(P, -1.0)
        if len(P) == 1:
            (((m, e), (c, g)),) = P.items()
            if e == 0 and c.imag == 0:
                mm = []
                for a, q in m:
                    if self.pos_atom(a) or (q.denominator == 1 and q % 2 == 0):
                        mm.append((a, q))
                    elif q.denominator == 1:
                        mm.append((self.abs_atom(a), q))
                    else:
                        mm.append((a, q))
                d = {}
                for a, q in mm:
                    d[a] = d.get(a, F0) + q
                return {(tuple(sorted((a, nz(q)) for a, q in d.items() if q)), 0): (complex(abs(c)), g)}
        if self.cplx(P):
            s, mono = self.real_parts(P)
            return self.abs_poly({(mono, 0): (complex(s), abs(s))})
        c, m, ek = self.sum_atom(P)
        if ek or c.imag:
            s, at = self.real_atom(P)
            return self.scale({(((self.abs_atom(at.id), F1),), 0): (1 + 0j, 1.0)}, abs(s))
        return self.abs_poly({(m, ek): (c, abs(c))})

    def cplx(self, P):
        return any(e or complex(c).imag for (_, e), (c, _) in P.items())

    def real_atom(self, P):
        """A real quantity written with complex exponentials, as an atom:
        P = s * atom with a real scale s."""
        k = sorted(P, key=repr)[0]
        c = complex(P[k][0])
        s = abs(c) * (1 if (c.real, c.imag) > (0.0, 0.0) else -1)
        P = self.scale(P, 1.0 / s)
        at = self.fn_atom("re", (P,))
        if at.defn is None:
            at.kind, at.defn = "sum", P
        return s, at

    # ---- opaque functions ---------------------------------------------------------------
    def fn_atom(self, name, args, val=None, extra=None, iv=(-INF, INF)):
        """Intern an uninterpreted/transcendental function application on polys."""
        vals = [self.pval(a) for a in args]
        key = (name, extra, len(args))
        lst = self.fn_atoms.setdefault(key, [])
        for at in lst:
            ok = True
            for a, b, va, vb in zip(args, at.data[1], vals, at.data[3]):
                if a is b:
                    continue
                mg = np.maximum(np.abs(va), np.abs(vb))
                if not np.all((np.abs(va - vb) <= 1e-9 * mg + 1e-300) | (np.abs(va - vb) <= 1e-12 * (self.pmag(a) + self.pmag(b)))):
                    ok = False
                    break
            if ok and all(a is b or self.zero(self.add(a, b, -1.0)) for a, b in zip(args, at.data[1])):
                self.stats["interned"] += 1
                return at
        v = self.generic_val(name, vals, extra, iv) if self.generic and name not in ("ite", "re", "max", "min") else None
        with np.errstate(all="ignore"):
            if v is None:
                v = self.fval(name, vals, extra) if val is None else val
        at = self.new_atom("fn", (name, args, extra, vals), v.astype(np.clongdouble), iv=iv)
        lst.append(at)
        return at

    def generic_val(self, name, vals, extra, iv):
        """Values used as identity signatures: a perturbed function value, so
        that only identities polynomial in the atoms are proposed."""
        try:
            with np.errstate(all="ignore"):
                v = np.asarray(self.fval(name, vals, extra), np.longdouble)
        except Unsupported:
            v = np.full(self.K, np.nan)
        lo, hi = iv
        l, h = (lo if math.isfinite(lo) else 0.3), (hi if math.isfinite(hi) else 1.7)
        r = self.rng.uniform(0, 1, self.K)
        bad = ~np.isfinite(v) | (v == 0)
        v = np.where(bad, min(l, h) + abs(h - l) * (0.2 + 0.6 * r), v * (1 + 0.2 * (r - 0.5)))
        return v

    def fval(self, name, V, extra):
        r = [v.real for v in V]
        if name == "log":
            return np.log(r[0])
        if name == "re":
            return r[0]
        if name == "atan":
            return np.arctan(r[0])
        if name == "acos":
            return np.arccos(r[0])
        if name == "asin":
            return np.arcsin(r[0])
        if name == "atan2":
            return np.arctan2(r[0], r[1])
        n = Node.__new__(Node)
        vs = [E.var(f"__x{i}") for i in range(len(r))]
        if extra is not None:
            n = E._mk(name, tuple(vs), extra)
        else:
            n = E.fn(name, *vs)
        return E.evaluate([n], {f"__x{i}": x for i, x in enumerate(r)})[n.id]

    # ---- zero test --------------------------------------------------------------------------
    def zero(self, D, at=False, budget=None):
        self.stats["zero_tests"] += 1
        if not D:
            return True
        # numeric refutation
        v = self.pval(D)
        mg = self.pmag(D)
        fin = np.isfinite(v) & np.isfinite(mg)
        if fin.any() and not np.all(np.abs(v[fin]) <= 1e-9 * mg[fin] + 1e-300):
            return False
        try:
            R = self.clear(D, budget or self.hard)
        except TooBig:
            return False
        if not R:
            if self.solver is not None:
                self.solver.note_zero(self, D)
            return True
        return False

    def clear(self, D, budget):
        """Multiply out denominators and expand all sum atoms; {} iff zero."""
        groups = [D]
        for _ in range(200):
            # highest sum atom present
            top = -1
            for G in groups:
                for (m, e) in G:
                    for a, q in m:
                        if self.atoms[a].kind in ("sum",) and a > top:
                            top = a
            if top < 0:
                break
            new = []
            for G in groups:
                cls = {}
                for (m, e), v in G.items():
                    q = F0
                    for a, p in m:
                        if a == top:
                            q = p
                    cls.setdefault(q - math.floor(q), {})[(m, e)] = (q, v)
                for fr, C in cls.items():
                    lo = min(q for q, _ in C.values())
                    out = {}
                    byq = {}
                    for (m, e), (q, v) in C.items():
                        mm = tuple((a, p) for a, p in m if a != top)
                        byq.setdefault(int(q - lo), {})[(mm, e)] = v
                    pw = self.const(1)
                    cur = 0
                    for n in sorted(byq):
                        while cur < n:
                            pw = self.mul_b(pw, self.atoms[top].defn, budget)
                            cur += 1
                        out = self.add(out, self.mul_b(byq[n], pw, budget) if n else byq[n])
                        if len(out) > budget:
                            raise TooBig()
                    if out:
                        new.append(out)
            groups = new
            if not groups:
                return {}
        out = {}
        for G in groups:
            G = {k: v for k, v in G.items() if abs(v[0]) > TOL * v[1]}
            if G:
                out.update(G)
        return out

    def mul_b(self, P, Q, budget):
        if len(P) * len(Q) > 20 * budget:
            raise TooBig()
        h, self.hard = self.hard, 20 * budget
        try:
            R = self.mul(P, Q)
        finally:
            self.hard = h
        if len(R) > budget:
            raise TooBig()
        return R

    # ---- nodes -> polys ---------------------------------------------------------------------------
    def cut(self, P):
        if len(P) <= self.limit:
            return P
        groups = {}
        for (m, e), v in P.items():
            groups.setdefault(e, {})[(m, e)] = v
        if len(groups) == 1 or 2 * len(groups) > self.limit:
            return self.force_cut(P)
        # one coefficient atom per exponential, so that factors stay visible
        out = {}
        for g in groups.values():
            out = self.add(out, self.force_cut(g))
        return out

    def poly(self, root):
        """Canonical polynomial of a real node under the current path."""
        todo = [root]
        outer = self.dep
        while todo:
            n = todo[-1]
            if self.get(n) is not None:
                todo.pop()
                continue
            if n.op == "ite":
                self.dep = {}
                c = self.minmax(n)
                if c is None:
                    ex = self.extremum(n)
                    if ex is not None:
                        mx, leaves = ex
                        pend = [a for a in leaves if self.get(a) is None]
                        if pend:
                            todo.extend(pend)
                            continue
                        self.dep = {}
                        self.store(n, self.extremum_poly(mx, [self.get(a) for a in leaves]), leaves)
                        todo.pop()
                        continue
                try:
                    if c is None:
                        c = self.cond(n.args[0])
                except NeedSplit:
                    if not self.modular:
                        raise
                    c = None
                dep = self.dep
                sel = n.args[1:] if c is None else (n.args[1] if c else n.args[2],)
                pend = [a for a in sel if self.get(a) is None]
                if pend:
                    todo.extend(pend)
                    continue
                if c is None:
                    self.dep = dep
                    p = self.ite_poly(n.args[0], self.get(sel[0]), self.get(sel[1]))
                else:
                    p = self.get(sel[0])
                self.store(n, p, sel)
                todo.pop()
                continue
            pend = [a for a in n.args if isinstance(a, Node) and self.get(a) is None]
            if pend:
                todo.extend(pend)
                continue
            A = [self.get(a) for a in n.args]
            self.dep = {}
            self.store(n, self.apply(n, A), n.args)
            todo.pop()
        self.dep = outer
        self.dep.update(self.deps.get(root.id, ()))
        return self.get(root)

    def store(self, n, p, kids):
        dep = self.dep
        for a in kids:
            d = self.deps.get(a.id) if isinstance(a, Node) else None
            if d:
                dep.update(d)
        if dep:
            self.memo_path[n.id] = p
            self.deps[n.id] = dep
            self.pmemo.setdefault(n.id, []).append((dep, p))
        else:
            self.memo[n.id] = p

    # ---- conditionals kept as atoms (split lazily) ------------------------------
    def literal(self, c):
        """Canonical (key, polarity) of a boolean node undecided on the path."""
        op = c.op
        if op == "not":
            k, p = self.literal(c.args[0])
            return k, not p
        if op in ("and", "or"):
            lits = []
            for a in c.args:
                try:
                    v = self.cond(a)
                    if v == (op == "or"):
                        raise Unsupported("decided literal")
                    continue
                except NeedSplit:
                    pass
                k, p = self.literal(a)
                lits.append((k, p if op == "and" else not p))
            if len(lits) == 1:
                k, p = lits[0]
                return (k, p) if op == "and" else (k, not p)
            return ("and", tuple(sorted(lits, key=repr))), op == "and"
        if op == "bvar":
            return ("bvar", c.val), True
        s, key = self.open_key(c)
        if len(key) > 1:
            raise NeedSplit(c, key[0][0], None)
        at, par = key[0]
        if par == 2:
            # even power: value is >= 0 (times s)
            if op == "eq" or (op == "le") == (s > 0):
                return ("eq", at), True
            if op == "lt" and s < 0:
                return ("eq", at), False
            raise NeedSplit(c, at, None)
        if op == "eq":
            return ("eq", at), True
        if s > 0:
            return (op, at), True
        return ("le" if op == "lt" else "lt", at), False

    def key_vals(self, key):
        if key[0] == "and":
            r = np.ones(self.K, bool)
            for k, p in key[1]:
                v = self.key_vals(k)
                r &= v if p else ~v
            return r
        if key[0] == "bvar":
            return np.arange(self.K) % 2 == 0
        v = self.atoms[key[1]].val.real
        with np.errstate(all="ignore"):
            return {"lt": v < 0, "le": v <= 0, "eq": v == 0}[key[0]]

    def key_atoms(self, key):
        if key[0] == "and":
            return [a for k, _ in key[1] for a in self.key_atoms(k)]
        return [("bvar", key[1])] if key[0] == "bvar" else [key[1]]

    def key_ops(self, key):
        if key[0] == "and":
            return [a for k, _ in key[1] for a in self.key_ops(k)]
        return [(("bvar", key[1]), "bvar")] if key[0] == "bvar" else [(key[1], key[0])]

    def ite_poly(self, c, P, Q):
        key, pol = self.literal(c)
        if not pol:
            P, Q = Q, P
        D = self.add(P, Q, -1.0)
        if self.zero(D):
            return P
        # monomial content and leading coefficient stay outside
        U = dict(Q)
        U.update(P)
        _, mono, _, _ = self.content(U)
        if mono:
            inv = tuple((a, -q) for a, q in mono)
            P = {(self.mmul(k, inv)[0], e): v for (k, e), v in P.items()}
            Q = {(self.mmul(k, inv)[0], e): v for (k, e), v in Q.items()}
        lead = complex((P or Q)[sorted(P or Q, key=repr)[0]][0])
        if lead.imag == 0 and lead.real != 0:
            P, Q = self.scale(P, 1 / lead.real), self.scale(Q, 1 / lead.real)
        else:
            lead = 1.0
        m = self.key_vals(key)
        vp, vq = self.pval(P), self.pval(Q)
        a, b = self.piv(P), self.piv(Q)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if lo < 0 and self.sgn(P) > 0 and self.sgn(Q) > 0:
            lo = 0.0
        if hi > 0 and self.sgn(P) < 0 and self.sgn(Q) < 0:
            hi = 0.0
        if self.generic:
            t = self.rng.uniform(0.2, 0.8, self.K)
            val = t * vp + (1 - t) * vq
        else:
            val = np.where(m, vp, vq)
        at = self.fn_atom("ite", (P, Q), val=val, extra=key, iv=(lo, hi))
        R = self.of_atom(at)
        if mono or lead != 1.0:
            R = self.mul(R, {(mono, 0): (complex(lead), abs(lead))})
        return R

    def split_candidates(self, polys):
        """Atoms whose sign would resolve an ite occurring in the polynomials,
        outermost first."""
        seen, out = set(), []
        frontier = []
        for P in polys:
            frontier += self.atoms_of(P)
        while frontier:
            nxt = []
            for a in frontier:
                if a in seen:
                    continue
                seen.add(a)
                at = self.atoms[a]
                if at.kind == "sum" or at.kind == "abs":
                    nxt += self.atoms_of(at.defn)
                elif at.kind == "fn":
                    if at.data[0] == "ite":
                        for k, op in self.key_ops(at.data[2]):
                            g = self.path.get(k[1] if isinstance(k, tuple) else k)
                            if g is None or (abs(g) == 2 and not isinstance(k, tuple)):
                                if (k, op) not in out:
                                    out.append((k, op))
                    for p in at.data[1]:
                        nxt += self.atoms_of(p)
            frontier = nxt
        return out

    def atoms_of(self, P):
        out = []
        for m, e in P:
            out += [a for a, _ in m]
            if e:
                out += self.atoms_of(self.exps[e])
        return out

    def get(self, n):
        p = self.memo.get(n.id)
        if p is not None:
            return p
        p = self.memo_path.get(n.id)
        if p is not None:
            return p
        path = self.path
        for dep, q in reversed(self.pmemo.get(n.id, ())):
            if all(path.get(a) == s for a, s in dep.items()):
                self.memo_path[n.id] = q
                self.deps[n.id] = dep
                return q
        return None

    def apply(self, n, A):
        op = n.op
        if op == "num":
            if math.isinf(n.val):
                raise Unsupported("infinite constant in arithmetic")
            return self.const(n.val)
        if op == "nan":
            raise Unsupported("NaN constant in arithmetic")
        if op == "var":
            return self.of_atom(self.var(n.val))
        if op == "add":
            return self.cut(self.add(A[0], A[1]))
        if op == "mul":
            P, Q = A
            if len(P) * len(Q) > self.limit:
                xp, xq = any(e for _, e in P), any(e for _, e in Q)
                if xp != xq:
                    if xp:
                        Q = self.force_cut(Q)
                    else:
                        P = self.force_cut(P)
            if len(P) * len(Q) > self.limit * 6:
                if len(P) >= len(Q):
                    P = self.force_cut(P)
                if len(P) * len(Q) > self.limit * 6:
                    Q = self.force_cut(Q)
            return self.cut(self.mul(P, Q))
        if op == "powr":
            return self.cut(self.power(A[0], n.val))
        if op == "abs":
            return self.abs_poly(A[0])
        if op == "exp":
            return self.exp_of(A[0])
        if op in ("sin", "cos"):
            ip = self.scale(A[0], 1j)
            im = self.scale(A[0], -1j)
            a, b = self.exp_of(ip), self.exp_of(im)
            if op == "cos":
                return self.scale(self.add(a, b), 0.5)
            return self.scale(self.add(a, b, -1.0), -0.5j)
        if op == "log":
            return self.log(A[0])
        if op in ("atan", "asin", "atan2", "acos"):
            iv = {"atan": (-1.5708, 1.5708), "asin": (-1.5708, 1.5708), "atan2": (-3.14160, 3.14160), "acos": (0.0, 3.1416)}[op]
            if op in ("atan", "asin") and A[0]:
                k = sorted(A[0], key=repr)[0]
                if A[0][k][0].real < 0:
                    return self.scale(self.of_atom(self.fn_atom(op, (self.scale(A[0], -1.0),), iv=iv)), -1.0)
            return self.of_atom(self.fn_atom(op, tuple(A), iv=iv))
        if op == "interp":
            tx, ty, l, r = n.val
            fp = E.TABLES[ty]
            lo, hi = float(np.nanmin(fp)), float(np.nanmax(fp))
            lo, hi = min(lo, l, r), max(hi, l, r)
            return self.of_atom(self.fn_atom(op, tuple(A), extra=n.val, iv=(lo, hi)))
        if op == "tab":
            arr = E.TABLES[n.val]
            return self.of_atom(self.fn_atom(op, tuple(A), extra=n.val, iv=(float(arr.min()), float(arr.max()))))
        if op == "ss":
            return self.of_atom(self.fn_atom(op, tuple(A), extra=n.val, iv=(0.0, float(len(E.TABLES[n.val[0]])))))
        if E.isbool(n):
            raise Unsupported("boolean used as a number")
        return self.of_atom(self.fn_atom(op, tuple(A), extra=n.val))

    def force_cut(self, P):
        if len(P) <= 1:
            return P
        c, m, ek = self.sum_atom(P)
        return {(m, ek): (c, abs(c))}

    def log(self, P):
        if not P:
            raise Unsupported("log of zero")
        if len(P) > 1:
            c, m, ek = self.sum_atom(P)
        else:
            (((m, ek), (c, _)),) = P.items()
        if c.imag != 0:
            raise Unsupported("log of complex")
        out = {}
        rest = []
        neg = c.real < 0
        for a, q in m:
            if self.pos_atom(a) or (q.denominator != 1):
                out = self.add(out, self.scale(self.of_atom(self.fn_atom("log", (self.of_atom(self.atoms[a]),))), float(q)))
            elif q.denominator == 1 and q % 2 == 0:
                ab = self.atoms[self.abs_atom(a)]
                out = self.add(out, self.scale(self.of_atom(self.fn_atom("log", (self.of_atom(ab),))), float(q)))
            else:
                rest.append((a, q))
        if rest:
            if len(rest) == 1 and not neg:
                a, q = rest[0]
                out = self.add(out, self.scale(self.of_atom(self.fn_atom("log", (self.of_atom(self.atoms[a]),))), float(q)))
            else:
                s = -1.0 if neg else 1.0
                sub = {(tuple(rest), 0): (complex(s), 1.0)}
                out = self.add(out, self.of_atom(self.fn_atom("log", (sub,))))
        elif neg:
            raise Undefined("log of a negative quantity")
        out = self.add(out, self.const(math.log(abs(c.real))))
        if ek:
            out = self.add(out, self.exps[ek])
        return out

    # ---- conditions ----------------------------------------------------------------------------------
    def cond(self, c):
        """Decide a boolean node under the current path, or raise NeedSplit."""
        hit = self.memo_c.get(c.id)
        if hit is not None:
            self.dep.update(hit[1])
            return hit[0]
        outer, self.dep = self.dep, {}
        try:
            r = self._cond(c)
            self.memo_c[c.id] = (r, dict(self.dep))
            return r
        finally:
            outer.update(self.dep)
            self.dep = outer

    def _cond(self, c):
        op = c.op
        if op == "bool":
            return c.val
        if op == "not":
            return not self.cond(c.args[0])
        if op in ("and", "or"):
            return self._andor(c)
        if op in ("lt", "le", "eq"):
            w = self.weak(c) if op != "eq" else None
            if w is not None:
                return w
            s = self.sign_of(c)
            if abs(s) == 2:  # weak: >= 0 or <= 0
                if (op == "lt" and s > 0) or (op == "le" and s < 0):
                    return op == "le"
                raise NeedSplit(c, self.open_key(c)[1][0][0], None)
            return {"lt": s < 0, "le": s <= 0, "eq": s == 0}[op]
        if op == "bvar":
            k = ("bvar", c.val)
            if k in self.path or c.val in self.path:
                self.dep[c.val] = self.path.get(c.val)
                return self.path[c.val]
            self.dep[c.val] = None
            raise NeedSplit(c, k, None)
        raise Unsupported(f"condition {op}")

    def _andor(self, c):
        need = None
        vals = []
        for a in c.args:
            try:
                vals.append(self.cond(a))
            except NeedSplit as e:
                need = need or e
        if c.op == "and":
            if False in vals:
                return False
        else:
            if True in vals:
                return True
        if need:
            raise need
        return vals[0] and vals[1] if c.op == "and" else vals[0] or vals[1]

    def comparison(self, c):
        """args[0]-args[1] of a comparison: (constant sign, []) or
        (sign of the coefficient, [(atom, parity)])."""
        hit = self.memo_cmp.get(c.id)
        if hit is not None:
            self.dep.update(hit[1])
            return hit[0]
        outer, self.dep = self.dep, {}
        try:
            r = self._comparison(c)
            self.memo_cmp[c.id] = (r, dict(self.dep))
            return r
        finally:
            outer.update(self.dep)
            self.dep = outer

    def open_key(self, c):
        """comparison() without the atoms whose strict sign is on the path."""
        s, key = self.comparison(c)
        out = []
        for at, par in key:
            g = self.pg(at)
            if g == 1 or (g == -1 and par == 2):
                continue
            if g == -1:
                s = -s
                continue
            out.append((at, par))
        return (s, out) if out else (s, key)

    def _comparison(self, c):
        a, b = c.args
        for x, y, flip in ((a, b, 1), (b, a, -1)):
            if y.op == "num" and math.isinf(y.val):
                return flip * (-1 if y.val > 0 else 1), []
        D = self.add(self.poly(a), self.poly(b), -1.0)
        if not D:
            return 0, []
        lo, hi = self.piv(D)
        if lo > 0:
            return 1, []
        if hi < 0:
            return -1, []
        if len(D) == 1 and set(D) == {((), 0)}:
            v = D[((), 0)][0].real
            return (1 if v > 0 else -1), []
        if self.cplx(D):
            co, m = self.real_parts(D)
            co = complex(co)
        else:
            co, m, ek = self.sum_atom(D)
            if ek or abs(co.imag) > 0:
                raise Unsupported("complex comparison")
        s = 1 if co.real > 0 else -1
        key = []
        for at, q in m:
            self.sign_query(at)
            if self.atoms[at].iv[0] > 0:
                continue
            if self.atoms[at].iv[1] < 0:
                if q.denominator == 1 and q % 2:
                    s = -s
                continue
            key.append((at, 2 if q.denominator == 1 and q % 2 == 0 else 1))
        return s, key

    @staticmethod
    def extremum(n):
        """(is_max, leaves) for a maximum/minimum of three or more terms."""
        def pat(x):
            if x.op != "ite" or x.args[0].op not in ("lt", "le"):
                return None
            a, b = x.args[0].args
            if x.args[1] is b and x.args[2] is a:
                return True
            if x.args[1] is a and x.args[2] is b:
                return False
            return None

        mx = pat(n)
        if mx is None:
            return None
        out, todo = [], [n]
        while todo:
            x = todo.pop()
            if pat(x) is mx:
                todo += [x.args[1], x.args[2]]
            elif x not in out:
                out.append(x)
            if len(out) > 64:
                return None
        return (mx, out) if len(out) >= 3 else None

    def extremum_poly(self, mx, polys):
        """Order-free atom for the maximum/minimum of several terms; common
        positive factors are taken out."""
        if any(not P for P in polys):
            common = {}
        else:
            cs = [dict(self.content(P)[1]) for P in polys]
            common = {a: q for a, q in cs[0].items() if all(c.get(a) == q for c in cs[1:]) and self.pos_atom(a)}
        mono = tuple(sorted(common.items()))
        inv = tuple((a, -q) for a, q in mono)
        Q = [{(self.mmul(m, inv)[0], e): v for (m, e), v in P.items()} for P in polys]
        Q = sorted(((self.pval(P).real, P) for P in Q), key=lambda t: -t[0][0])
        keep = []
        for v, P in Q:
            if not any(abs(v[0] - w[0]) <= 1e-9 * abs(v[0]) and self.zero(self.add(P, R, -1.0)) for w, R in keep):
                keep.append((v, P))
        if len(keep) == 1:
            return self.mul(keep[0][1], {(mono, 0): (1 + 0j, 1.0)})
        lead = next((P for _, P in keep if P), None)
        s = abs(lead[sorted(lead, key=repr)[0]][0])
        args = tuple(self.scale(P, 1.0 / s) for _, P in keep)
        vals = np.array([v for v, _ in keep]) / s
        val = vals.max(axis=0) if mx else vals.min(axis=0)
        ivs = [self.piv(P) for P in args]
        f = max if mx else min
        at = self.fn_atom("max" if mx else "min", args, val=val, iv=(f(i[0] for i in ivs), f(i[1] for i in ivs)))
        return self.mul({(mono, 0): (complex(s), s)}, self.of_atom(at))

    def minmax(self, n):
        """Branch of a maximum/minimum whose order is known over the box."""
        c, x, y = n.args
        if c.op not in ("lt", "le"):
            return None
        a, b = c.args
        if not ((x is a and y is b) or (x is b and y is a)):
            return None
        s, key = self.comparison(c)
        if not key:
            return None
        for at, par in key:
            iv = self.atoms[at].iv
            if par == 2 or iv[0] >= 0:
                continue
            if iv[1] <= 0:
                s = -s
                continue
            return None
        return s < 0

    def weak(self, c):
        """a < b is false when a-b >= 0 is known; a <= b true when a-b <= 0."""
        s, key = self.comparison(c)
        if not key:
            return None
        for at, par in key:
            iv = self.atoms[at].iv
            if par == 2 or iv[0] >= 0:
                continue
            if iv[1] <= 0:
                s = -s
                continue
            return None
        if c.op == "lt" and s > 0:
            return False
        if c.op == "le" and s < 0:
            return True
        return None

    def sign_query(self, a):
        """Sign of a sum atom over the box, asked of the solver once."""
        at = self.atoms[a]
        if at.kind != "sum" or a in self.signq or self.sign_solver is None:
            return
        self.signq.add(a)
        if at.iv[0] > 0 or at.iv[1] < 0 or self.path.get(a) is not None:
            return
        lo, hi = self.sign_solver(self, a)
        at.iv = (max(lo, at.iv[0]), min(hi, at.iv[1]))

    def sign_of(self, c):
        """Sign (-1,0,1) of args[0]-args[1] for a comparison node."""
        s, key = self.comparison(c)
        weak = False
        for at, par in key:
            g = self.pg(at)
            if g is None:
                g = self.entailed(at)
            if g is None:
                raise NeedSplit(c, at, None)
            if g == 0:
                return 0
            if abs(g) == 2:
                weak = True
            if par == 1:
                s *= 1 if g > 0 else -1
        return 2 * s if weak else s

    def entailed(self, at):
        if self.solver is None:
            return None
        return self.solver.entailed_sign(self, at)

    def den_of(self, a):
        return self.dens.get(a, 1)

    def assume_positive(self, node):
        """Record that a real node is >= 0 over the box (proved separately)."""
        P = self.poly(node)
        if not P:
            return
        if len(P) == 1:
            (((m, e), (c, _)),) = P.items()
        else:
            c, m, e = self.sum_atom(P)
        if e or abs(c.imag) > 0:
            return
        rest = [(a, q) for a, q in m if not self.pos_atom(a)]
        if len(rest) == 1 and rest[0][1].denominator == 1 and rest[0][1] % 2:
            at = self.atoms[rest[0][0]]
            at.iv = (max(0.0, at.iv[0]), at.iv[1]) if c.real > 0 else (at.iv[0], min(0.0, at.iv[1]))

    def set_path(self, path):
        self.path = dict(path)
        self.memo_path = {}
        self.memo_c = {}
        self.memo_cmp = {}
        self.deps = {}
        self.dep = {}


def _cexp(c):
    c = complex(c)
    if c.real == 0:
        # snap multiples of pi/12 for exactness
        k = c.imag / (math.pi / 2)
        if abs(k - round(k)) < 1e-14 * max(1, abs(k)):
            return [1 + 0j, 1j, -1 + 0j, -1j][int(round(k)) % 4]
    return complex(np.exp(np.clongdouble(c)))
