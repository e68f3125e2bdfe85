"""SMT side: z3 (and cvc5 as a second opinion) over expression nodes and over
canonical polynomials.  Every query is logged for the evidence file."""
import math
import subprocess
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import expr as E
from .expr import Node, Cx, Unsupported


class Log:
    queries = 0
    unsat = 0
    sat = 0
    unknown = 0
    time = 0.0
    cvc5 = 0
    cvc5_agree = 0
    kinds = {}
    samples = []


def reset_log():
    Log.queries = Log.unsat = Log.sat = Log.unknown = Log.cvc5 = Log.cvc5_agree = 0
    Log.time = 0.0
    Log.kinds = {}
    Log.samples = []


CROSS = False  # cross-check definite answers with cvc5 (thorough tier)


def rat(v):
    """Double -> rational.  A literal within 2 ulp of a rational of small
    denominator is read as that rational (13/8, 3/5, ... written in the source
    and rounded by the parser)."""
    if isinstance(v, Fraction):
        return v
    v = float(v)
    if v.is_integer():
        return Fraction(int(v))
    for d in (1000, 100000, 20000000):
        f = Fraction(v).limit_denominator(d)
        if f != 0 and abs(float(f) - v) <= 4.5e-16 * abs(v):
            return f
    return Fraction(v)


def zv(fr):
    fr = Fraction(fr)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 else z3.RealVal(fr.numerator)


def check(cons, timeout=10000, kind="query", tactic=None, cross=None):
    """Satisfiability of the conjunction; returns (verdict, model|None)."""
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set("timeout", int(timeout))
    for c in cons:
        s.add(c)
    t = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    m = s.model() if r == "sat" else None
    dt = time.time() - t
    if r == "unknown" and (CROSS or cross):
        r2 = cvc5_check(s.to_smt2(), timeout)
        if r2 == "unsat":
            r = r2
    elif r in ("sat", "unsat") and CROSS and kind != "witness":
        r2 = cvc5_check(s.to_smt2(), timeout)
        if r2 in ("sat", "unsat") and r2 != r:
            r = "unknown"
            m = None
        elif r2 == r:
            Log.cvc5_agree += 1
    Log.queries += 1
    Log.time += dt
    setattr(Log, r, getattr(Log, r) + 1)
    k = Log.kinds.setdefault(kind, {"unsat": 0, "sat": 0, "unknown": 0, "s": 0.0})
    k[r] += 1
    k["s"] = round(k["s"] + dt, 4)
    if len(Log.samples) < 4 and kind != "witness":
        txt = s.to_smt2()
        Log.samples.append({"kind": kind, "verdict": r, "s": round(dt, 4), "smt2": txt[:1500] + ("..." if len(txt) > 1500 else "")})
    return r, m


def cvc5_check(smt2, timeout):
    Log.cvc5 += 1
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(timeout)}", "--nl-cov", "-q"], input=smt2,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
    except Exception:
        return "unknown"
    out = p.stdout.strip().splitlines()
    if "(error" in p.stdout or not out:
        return "unknown"
    return out[0] if out[0] in ("sat", "unsat") else "unknown"


def mval(m, v):
    """Model value as float."""
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_int_value(x):
        return float(x.as_long())
    raise Unsupported(f"model value {x}")


class Enc:
    """Node -> z3 term, with side constraints defining auxiliary variables."""

    def __init__(self, snap=True, box=None, over=True):
        self.memo = {}
        self.side = []
        self.aux = 0
        self.vars = {}
        self.roots = {}
        self.mono = {}
        self.trig = {}
        self.defd = []  # definedness obligations (z3 booleans)
        self.snap = snap
        self.opaque = {}
        if box:
            for k, (lo, hi) in box.items():
                v = self.var(k)
                if lo > -math.inf:
                    self.side.append(v >= zv(rat(lo)))
                if hi < math.inf:
                    self.side.append(v <= zv(rat(hi)))

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Real(name)
            if name.startswith("rnd!"):
                self.side += [v >= 0, v < 1]
        return v

    def fresh(self, hint="t"):
        self.aux += 1
        return z3.Real(f"!{hint}{self.aux}")

    def __call__(self, n):
        if isinstance(n, (int, float)):
            n = E.const(n)
        for x in E.topo([n]):
            if x.id not in self.memo:
                self.memo[x.id] = self._enc(x)
        return self.memo[n.id]

    def pown(self, a, k):
        r = a
        for _ in range(k - 1):
            r = r * a
        return r

    def _enc(self, n):
        A = [self.memo[a.id] if isinstance(a, Node) else a for a in n.args]
        op = n.op
        if op == "num":
            if math.isinf(n.val):
                raise Unsupported("infinite constant in query")
            return zv(rat(n.val) if self.snap else Fraction(n.val))
        if op == "bool":
            return z3.BoolVal(n.val)
        if op == "var":
            return self.var(n.val)
        if op == "bvar":
            return z3.Bool(n.val)
        if op == "add":
            return A[0] + A[1]
        if op == "mul":
            return A[0] * A[1]
        if op == "lt":
            return A[0] < A[1]
        if op == "le":
            return A[0] <= A[1]
        if op == "eq":
            return A[0] == A[1]
        if op == "not":
            return z3.Not(A[0])
        if op == "and":
            return z3.And(*A)
        if op == "or":
            return z3.Or(*A)
        if op == "ite":
            return z3.If(A[0], A[1], A[2])
        if op == "abs":
            return z3.If(A[0] >= 0, A[0], -A[0])
        if op == "powr":
            return self._pow(n.args[0], A[0], n.val)
        if op in ("sin", "cos"):
            return self._trig(n.args[0], A[0])[0 if op == "cos" else 1]
        v = self.fresh(op)
        self.opaque[n.id] = v
        if op == "exp":
            self.side += [v > 0, v >= 1 + A[0]]
            self._monotone(op, A[0], v)
            return v
        if op == "log":
            self.defd.append(A[0] > 0)
            self.side += [v <= A[0] - 1]
            self._monotone(op, A[0], v)
            return v
        if op in ("atan2",):
            self.side += [v >= zv(-3.141592653589794), v <= zv(3.141592653589794)]
            return v
        if op in ("atan", "asin"):
            self.side += [v >= zv(-1.5707963267948968), v <= zv(1.5707963267948968)]
            return v
        if op == "acos":
            self.side += [v >= 0, v <= zv(3.141592653589794)]
            return v
        if op == "interp":
            tx, ty, l, r = n.val
            xp, fp = E.TABLES[tx], E.TABLES[ty]
            if len(xp) <= 64:
                return self._pwl(A[0], xp, fp, l, r)
            fin = [x for x in (l, r) if math.isfinite(x)]
            lo, hi = min(fp.min(), *fin, fp.max()), max(fp.max(), *fin, fp.min())
            self.side += [v >= zv(Fraction(float(lo))), v <= zv(Fraction(float(hi)))]
            return v
        if op == "tab":
            arr = E.TABLES[n.val]
            self.side += [v >= zv(Fraction(float(arr.min()))), v <= zv(Fraction(float(arr.max())))]
            return v
        if op == "ss":
            arr = E.TABLES[n.val[0]]
            self.side += [v >= 0, v <= len(arr)]
            return v
        if op == "round":
            k = z3.Int(f"!k{self.aux}")
            kr = z3.ToReal(k)
            self.side += [2 * (kr - A[0]) <= 1, 2 * (A[0] - kr) <= 1]
            return kr
        if op == "mod":
            k = z3.Int(f"!k{self.aux}")
            kr = z3.ToReal(k)
            q, b = A[0] - A[1] * kr, A[1]
            self.side += [z3.If(A[0] >= 0, z3.And(q >= 0, q < z3.If(b > 0, b, -b)), z3.And(q <= 0, q > -z3.If(b > 0, b, -b)))]
            return q
        if op in ("floor", "trunc", "ceil"):
            k = z3.Int(f"!k{self.aux}")
            kr = z3.ToReal(k)
            if op == "floor":
                self.side += [kr <= A[0], A[0] < kr + 1]
            elif op == "ceil":
                self.side += [kr >= A[0], A[0] > kr - 1]
            else:
                self.side += [z3.If(A[0] >= 0, z3.And(kr <= A[0], A[0] < kr + 1), z3.And(kr >= A[0], A[0] > kr - 1))]
            return kr
        return v

    def _monotone(self, op, a, v):
        """Strictly increasing functions: pairwise order axioms."""
        L = self.mono.setdefault(op, [])
        if len(L) < 8:
            for b, w in L:
                self.side += [(a < b) == (v < w), (a == b) == (v == w)]
        L.append((a, v))

    def _pwl(self, x, xp, fp, l, r):
        t = zv(Fraction(float(r)))
        t = z3.If(x <= zv(Fraction(float(xp[-1]))), zv(Fraction(float(fp[-1]))), t)
        for i in range(len(xp) - 1, 0, -1):
            x0, x1, y0, y1 = (Fraction(float(z)) for z in (xp[i - 1], xp[i], fp[i - 1], fp[i]))
            sl = (y1 - y0) / (x1 - x0) if x1 != x0 else Fraction(0)
            t = z3.If(x <= zv(x1), zv(y0) + zv(sl) * (x - zv(x0)), t)
        return z3.If(x < zv(Fraction(float(xp[0]))), zv(Fraction(float(l))), t)

    def _trig(self, an, a):
        # arguments that differ by a sign or by an integer multiple share atoms
        k = 1.0
        base = an
        if an.op == "mul" and an.args[0].op == "num":
            k, base = an.args[0].val, an.args[1]
        if k.is_integer() and abs(k) <= 8 and k != 1.0:
            c, s = self._trig(base, self(base))
            C, S = c, s
            for _ in range(int(abs(k)) - 1):
                C, S = C * c - S * s, S * c + C * s
            return (C, S if k > 0 else -S)
        if k != 1.0:
            # keep the scaled argument as its own atom, but pool +-
            if k < 0:
                c, s = self._trig(E.neg(an), None)
                return (c, -s)
        key = an.id
        if key not in self.trig:
            c, s = self.fresh("c"), self.fresh("s")
            self.side += [c * c + s * s == 1, c >= -1, c <= 1, s >= -1, s <= 1]
            self.trig[key] = (c, s)
        return self.trig[key]

    def _pow(self, an, a, q):
        if q.denominator == 1:
            k = int(q)
            if k > 0:
                return self.pown(a, k)
            key = (an.id, -1)
            inv = self.roots.get(key)
            if inv is None:
                inv = self.fresh("inv")
                self.side.append(inv * a == 1)
                self.defd.append(a != 0)
                self.roots[key] = inv
            return self.pown(inv, -k)
        key = (an.id, q.denominator)
        y = self.roots.get(key)
        if y is None:
            y = self.fresh("root")
            self.side += [y >= 0, self.pown(y, q.denominator) == a]
            self.defd.append(a >= 0)
            self.roots[key] = y
        p = q.numerator
        if p > 0:
            return self.pown(y, p)
        key2 = (an.id, -q.denominator)
        inv = self.roots.get(key2)
        if inv is None:
            inv = self.fresh("inv")
            self.side.append(inv * y == 1)
            self.defd.append(a > 0)
            self.roots[key2] = inv
        return self.pown(inv, -p)


def prove(enc, goal, assume=(), timeout=10000, kind="goal", cross=None):
    """Validity of goal under side constraints; (verdict, model)."""
    return check(list(enc.side) + list(assume) + [z3.Not(goal)], timeout, kind, cross=cross)


# ---- residual of a canonical difference ------------------------------------
def residual(PA, PB, tol=1e-9, timeout=5000, kind="residual"):
    """PA, PB canonical polynomials {(mono, ek): (coef, mag)}.  Decide whether
    values of the shared monomials exist (any complex numbers: abstraction) for
    which |PA-PB| exceeds tol times the rounding scale.  unsat => equal."""
    keys = set(PA) | set(PB)
    cons = []
    lin_re, lin_im, scale = [], [], []
    real = True
    for k in keys:
        a, b = PA.get(k, (0j, 0.0)), PB.get(k, (0j, 0.0))
        if complex(a[0]).imag or complex(b[0]).imag or k[1]:
            real = False
    for i, k in enumerate(sorted(keys, key=repr)):
        a, b = PA.get(k, (0j, 0.0)), PB.get(k, (0j, 0.0))
        d = [Fraction(float(complex(a[0]).real)) - Fraction(float(complex(b[0]).real)),
             Fraction(float(complex(a[0]).imag)) - Fraction(float(complex(b[0]).imag))]
        mag = Fraction(max(float(a[1]), float(b[1])))
        s = Fraction(1)
        if mag:
            s = mag
        d = [x / s for x in d]  # monomials rescaled to unit magnitude coefficient
        if real:
            u = z3.Real(f"u{i}")
            lin_re.append(zv(d[0]) * u)
            scale.append(z3.If(u >= 0, u, -u))
        else:
            u, v = z3.Real(f"u{i}"), z3.Real(f"v{i}")
            lin_re.append(zv(d[0]) * u - zv(d[1]) * v)
            lin_im.append(zv(d[1]) * u + zv(d[0]) * v)
            scale.append(z3.If(u >= 0, u, -u) + z3.If(v >= 0, v, -v))
    if not keys:
        return check([z3.BoolVal(False)], timeout, kind)
    t = z3.Real("T")
    cons.append(t == z3.Sum(scale))
    bad = [z3.Sum(lin_re) > zv(Fraction(tol)) * t, z3.Sum(lin_re) < -zv(Fraction(tol)) * t]
    if not real:
        bad += [z3.Sum(lin_im) > zv(Fraction(tol)) * t, z3.Sum(lin_im) < -zv(Fraction(tol)) * t]
    cons.append(z3.Or(*bad))
    return check(cons, timeout, kind, tactic="QF_LRA")
