"""Hash-consed real/boolean expression DAG.

A Node is a real (or boolean, or integer) valued expression over named input
variables.  Complex numbers are pairs (class Cx).  Constants are the IEEE
doubles that occur in the traced program; arithmetic on nodes is arithmetic on
reals (see the floats-as-reals assumption in DESIGN.md).
"""
import math
from fractions import Fraction
import numpy as np

_TAB = {}
_NODES = []

CMP = ("lt", "le", "eq")


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ("id", "op", "args", "val", "h")

    def __repr__(self):
        return show(self, 3)

    __array_priority__ = 1000

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return pow_(self, o)

    def __rpow__(self, o):
        return pow_(o, self)

    def __abs__(self):
        return abs_(self)

    def __bool__(self):
        if self.op == "const":
            return bool(self.val)
        raise Unsupported("truth value of a symbolic expression")

    # numpy-style methods so that np.exp(object array) works
    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def sqrt(self):
        return powr(self, Fraction(1, 2))


def _mk(op, args=(), val=None):
    key = (op, tuple(a.id if isinstance(a, Node) else a for a in args), val)
    n = _TAB.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.id = len(_NODES)
        n.op = op
        n.args = tuple(args)
        n.val = val
        _NODES.append(n)
        _TAB[key] = n
    return n


def const(v):
    if isinstance(v, Node):
        return v
    if isinstance(v, (bool, np.bool_)):
        return _mk("bool", (), bool(v))
    if isinstance(v, Fraction):
        v = float(v) if v.denominator != 1 else int(v)
    v = float(v)
    if v == 0.0:
        v = 0.0
    if v != v:
        return _mk("nan", ())
    return _mk("num", (), v)


def var(name):
    return _mk("var", (), name)


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def reset():
    global TRUE, FALSE, ZERO, ONE
    _TAB.clear()
    _NODES.clear()
    TRUE = const(True)
    FALSE = const(False)
    ZERO = const(0)
    ONE = const(1)


def isnum(n):
    return n.op == "num"


def isbool(n):
    return n.op in ("bool", "lt", "le", "eq", "not", "and", "or", "iteb", "bvar")


def N(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, Cx):
        raise Unsupported("complex where real expected")
    if isinstance(x, (complex, np.complexfloating)):
        raise Unsupported("complex constant where real expected")
    return const(x)


def toreal(n):
    """Boolean -> 0/1."""
    n = N(n)
    if n.op == "bool":
        return ONE if n.val else ZERO
    if isbool(n):
        return ite(n, ONE, ZERO)
    return n


def add(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) + Cx.of(b)
    a, b = N(a), N(b)
    if isnum(a) and isnum(b):
        return const(a.val + b.val)
    if isnum(a) and a.val == 0.0:
        return b
    if isnum(b) and b.val == 0.0:
        return a
    if a.op == "nan" or b.op == "nan":
        return const(float("nan"))
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b))


def neg(a):
    return mul(const(-1.0), a)


def sub(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) - Cx.of(b)
    a, b = N(a), N(b)
    if a is b and a.op != "num":
        return ZERO
    return add(a, neg(b))


STRICT_ZERO = False  # when True, 0*x is not simplified (definedness checks)


def mul(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) * Cx.of(b)
    a, b = N(a), N(b)
    if isbool(a):
        a = toreal(a)
    if isbool(b):
        b = toreal(b)
    if isnum(a) and isnum(b):
        return const(a.val * b.val)
    if a.op == "nan" or b.op == "nan":
        return const(float("nan"))
    if isnum(b):
        a, b = b, a
    if isnum(a):
        if a.val == 1.0:
            return b
        if a.val == 0.0 and not STRICT_ZERO:
            return ZERO
        if b.op == "mul" and isnum(b.args[0]):
            return mul(const(a.val * b.args[0].val), b.args[1])
        return _mk("mul", (a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) / Cx.of(b)
    a, b = N(a), N(b)
    if isnum(a) and isnum(b):
        if b.val == 0.0:
            if a.val == 0.0:
                return const(float("nan"))
            return const(math.copysign(float("inf"), a.val))
        return const(a.val / b.val)
    if isnum(b) and b.val not in (0.0, float("inf"), -float("inf")):
        return mul(const(1.0 / b.val), a)
    return mul(a, powr(b, Fraction(-1)))


def snap_exp(v):
    """Exponent literal -> small rational within 2 ulp, else the exact double."""
    fr = Fraction(v).limit_denominator(1200)
    if abs(float(fr) - v) <= 4e-16 * max(1.0, abs(v)):
        return fr
    return Fraction(v)


def powr(a, q):
    a = N(a)
    if isbool(a):
        a = toreal(a)
    q = Fraction(q)
    if q == 0:
        return ONE
    if q == 1:
        return a
    if isnum(a):
        if a.val == 0.0:
            return const(0.0) if q > 0 else const(float("inf"))
        if a.val > 0 or q.denominator == 1:
            try:
                return const(a.val ** (int(q) if q.denominator == 1 else float(q)))
            except OverflowError:
                return const(float("inf"))
        return const(float("nan"))
    if a.op == "powr":
        # IEEE pow of a negative base to a fractional exponent is NaN, so a
        # fractional inner power implies a non-negative base.
        p = a.val
        if q.denominator == 1 or p.denominator != 1 or p.numerator % 2:
            return powr(a.args[0], p * q)
        return powr(abs_(a.args[0]), p * q)
    return _mk("powr", (a,), q)


def pow_(a, b):
    if isinstance(a, Cx):
        if isinstance(b, (int, np.integer)):
            return a.ipow(int(b))
        if isinstance(b, Node) and isnum(b) and float(b.val).is_integer():
            return a.ipow(int(b.val))
        raise Unsupported("complex power")
    a, b = N(a), N(b)
    if isnum(b):
        return powr(a, snap_exp(b.val))
    if isnum(a) and a.val > 0:
        return fn("exp", mul(const(math.log(a.val)), b))
    return fn("exp", mul(b, fn("log", a)))


_CONSTFN = {
    "exp": lambda x: math.exp(x) if x < 709 else float("inf"),
    "log": lambda x: math.log(x) if x > 0 else (float("-inf") if x == 0 else float("nan")),
    "sin": math.sin,
    "cos": math.cos,
    "atan": math.atan,
    "asin": lambda x: math.asin(x) if abs(x) <= 1 else float("nan"),
    "acos": lambda x: math.acos(x) if abs(x) <= 1 else float("nan"),
    "erf": math.erf,
    "floor": math.floor,
    "ceil": math.ceil,
    "trunc": math.trunc,
    "round": round,
    "lgamma": math.lgamma,
    "asinh": math.asinh,
    "atanh": lambda x: math.atanh(x) if abs(x) < 1 else float("nan"),
    "acosh": lambda x: math.acosh(x) if x >= 1 else float("nan"),
}


ROUNDERS = ("floor", "ceil", "trunc", "round")


def fn(name, *args):
    args = tuple(N(a) for a in args)
    if any(a.op == "nan" for a in args):
        return const(float("nan"))
    if name in ROUNDERS and args[0].op in ROUNDERS:
        return args[0]
    if all(isnum(a) for a in args):
        if len(args) == 1 and name in _CONSTFN:
            v = args[0].val
            if name in ("sin", "cos") and not math.isinf(v):
                # quarter turns exactly, not to 6e-17
                k = round(v / (math.pi / 2))
                if abs(v - k * (math.pi / 2)) <= 1e-15 * max(1.0, abs(v)):
                    return const((1.0, 0.0, -1.0, 0.0)[k % 4] if name == "cos" else (0.0, 1.0, 0.0, -1.0)[k % 4])
            if math.isinf(v):
                r = {("exp", True): float("inf"), ("exp", False): 0.0, ("log", True): float("inf"),
                     ("atan", True): math.pi / 2, ("atan", False): -math.pi / 2}.get((name, v > 0))
                if r is not None:
                    return const(r)
            else:
                return const(_CONSTFN[name](v))
        if name == "atan2":
            return const(math.atan2(args[0].val, args[1].val))
        if name == "mod":
            return const(math.fmod(args[0].val, args[1].val))
    return _mk(name, args)


def abs_(a):
    if isinstance(a, Cx):
        return a.abs()
    a = N(a)
    if isnum(a):
        return const(abs(a.val))
    if a.op == "abs":
        return a
    if a.op == "powr" and a.val.denominator == 1 and a.val.numerator % 2 == 0:
        return a
    if a.op == "powr" and a.val.denominator % 2 == 0:
        return a
    if a.op == "mul" and isnum(a.args[0]):
        return mul(const(abs(a.args[0].val)), abs_(a.args[1]))
    return _mk("abs", (a,))


def sign(a):
    a = N(a)
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), const(-1.0), ZERO))


def lt(a, b):
    a, b = toreal(a), toreal(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if isnum(a) and isnum(b):
        return const(a.val < b.val)
    if a is b:
        return FALSE
    return _mk("lt", (a, b))


def le(a, b):
    a, b = toreal(a), toreal(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if isnum(a) and isnum(b):
        return const(a.val <= b.val)
    if a is b:
        return TRUE
    return _mk("le", (a, b))


def eq(a, b):
    a, b = N(a), N(b)
    if isbool(a) and isbool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = toreal(a), toreal(b)
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return const(a.val == b.val)
    # resolve comparisons of an ite of constants with a constant
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and isnum(y):
            l, r = eq(x.args[1], y), eq(x.args[2], y)
            if l.op == "bool" or r.op == "bool":
                return or_(and_(x.args[0], l), and_(not_(x.args[0]), r))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b))


def tobool(a):
    a = N(a)
    if isbool(a):
        return a
    return not_(eq(a, ZERO))


def not_(a):
    a = tobool(a)
    if a.op == "bool":
        return const(not a.val)
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def and_(a, b):
    a, b = tobool(a), tobool(b)
    if a.op == "bool":
        return b if a.val else FALSE
    if b.op == "bool":
        return a if b.val else FALSE
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b))


def or_(a, b):
    a, b = tobool(a), tobool(b)
    if a.op == "bool":
        return TRUE if a.val else b
    if b.op == "bool":
        return TRUE if b.val else a
    if a is b:
        return a
    if not_(a) is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b))


def ite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    c = tobool(c)
    a, b = N(a), N(b)
    if c.op == "bool":
        return a if c.val else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isbool(a) and isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    a, b = toreal(a), toreal(b)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b))


def max_(a, b):
    a, b = N(a), N(b)
    if isnum(a) and isnum(b):
        return const(max(a.val, b.val))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return ite(lt(a, b), b, a)


def min_(a, b):
    a, b = N(a), N(b)
    if isnum(a) and isnum(b):
        return const(min(a.val, b.val))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return ite(lt(a, b), a, b)


# ---------------------------------------------------------------------------
class Cx:
    """Complex number with real Node parts."""

    __slots__ = ("re", "im")
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re = N(re)
        self.im = N(im)

    @staticmethod
    def of(x):
        if isinstance(x, Cx):
            return x
        if isinstance(x, Node):
            return Cx(toreal(x), ZERO)
        x = complex(x)
        return Cx(const(x.real), const(x.imag))

    def __repr__(self):
        return f"({self.re} + i {self.im})"

    def __add__(self, o):
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = Cx.of(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        o = Cx.of(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __truediv__(self, o):
        o = Cx.of(o)
        if o.im is ZERO:
            return Cx(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        num = self * o.conjugate()
        return Cx(num.re / d, num.im / d)

    def __rtruediv__(self, o):
        return Cx.of(o) / self

    def __pow__(self, o):
        return pow_(self, o)

    def ipow(self, n):
        if n < 0:
            return Cx.of(1.0) / self.ipow(-n)
        r = Cx.of(1.0)
        for _ in range(n):
            r = r * self
        return r

    def conjugate(self):
        return Cx(self.re, -self.im)

    def abs(self):
        if self.im is ZERO:
            return abs_(self.re)
        return powr(self.re * self.re + self.im * self.im, Fraction(1, 2))

    def __abs__(self):
        return self.abs()

    def exp(self):
        e = fn("exp", self.re)
        return Cx(e * fn("cos", self.im), e * fn("sin", self.im))


def cexp(x):
    return Cx.of(x).exp()


def cabs2(x):
    x = Cx.of(x)
    return x.re * x.re + x.im * x.im


# ---------------------------------------------------------------------------
def topo(roots):
    """Nodes reachable from roots in dependency order."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]


def show(n, depth=4):
    if n.op in ("num", "bool", "var"):
        return str(n.val)
    if depth <= 0:
        return f"#{n.id}"
    a = ",".join(show(x, depth - 1) if isinstance(x, Node) else str(x) for x in n.args)
    return f"{n.op}{'^' + str(n.val) if n.val is not None else ''}({a})"


# tables --------------------------------------------------------------------
TABLES = {}


def table_id(arr):
    """Register a constant 1-D lookup table, returning its id (content digest)."""
    import hashlib

    arr = np.ascontiguousarray(np.asarray(arr, dtype=np.float64))
    d = hashlib.sha256(arr.tobytes() + str(arr.shape).encode()).hexdigest()[:16]
    TABLES[d] = arr
    return d


def tab(tid, idx):
    """TABLES[tid][idx] with idx an integer-valued node (already in range)."""
    idx = N(idx)
    arr = TABLES[tid]
    if isnum(idx):
        return const(float(arr[int(idx.val)]))
    if idx.op == "ite" and (isnum(idx.args[1]) or isnum(idx.args[2])):
        return ite(idx.args[0], tab(tid, idx.args[1]), tab(tid, idx.args[2]))
    return _mk("tab", (idx,), tid)


def ss(tid, x, side):
    """np.searchsorted(TABLES[tid], x, side)."""
    x = N(x)
    arr = TABLES[tid]
    if isnum(x):
        return const(int(np.searchsorted(arr, x.val, side=side)))
    return _mk("ss", (x,), (tid, side))


def interp(x, tx, ty, left, right):
    """np.interp(x, TABLES[tx], TABLES[ty], left, right)."""
    x = N(x)
    if isnum(x):
        return const(float(np.interp(x.val, TABLES[tx], TABLES[ty], left=left, right=right)))
    return _mk("interp", (x,), (tx, ty, left, right))


def interp_definition(n):
    """The lookup `interp` as an explicit expression over searchsorted/table."""
    (x,) = n.args
    tx, ty, left, right = n.val
    xp, fp = TABLES[tx], TABLES[ty]
    i = min_(max_(ss(tx, x, "right"), ONE), const(len(xp) - 1))
    im = sub(i, ONE)
    x0, x1, y0, y1 = tab(tx, im), tab(tx, i), tab(ty, im), tab(ty, i)
    f = y0 + (x - x0) / (x1 - x0) * (y1 - y0)
    return ite(lt(x, const(xp[0])), const(left), ite(lt(const(xp[-1]), x), const(right), f))


# numeric evaluation ----------------------------------------------------------
def evaluate(roots, env, dtype=np.longdouble):
    """Evaluate nodes at vectors of points; env maps var name -> array (K,).
    Returns dict id -> array."""
    out = {}
    K = len(next(iter(env.values()))) if env else 1
    with np.errstate(all="ignore"):
        for n in topo(roots):
            out[n.id] = _ev(n, out, env, K, dtype)
    return out


def _ev(n, out, env, K, dtype):
    op = n.op
    A = [out[a.id] if isinstance(a, Node) else a for a in n.args]
    if op == "num":
        return np.full(K, n.val, dtype)
    if op == "bool":
        return np.full(K, n.val, bool)
    if op == "nan":
        return np.full(K, np.nan, dtype)
    if op in ("var", "bvar"):
        return np.asarray(env[n.val])
    if op == "add":
        return A[0] + A[1]
    if op == "mul":
        return A[0] * A[1]
    if op == "powr":
        q = n.val
        if q.denominator == 1:
            return A[0] ** int(q)
        if q == Fraction(1, 2):
            return np.sqrt(A[0])
        return A[0] ** (dtype(q.numerator) / dtype(q.denominator))
    if op == "exp":
        return np.exp(A[0])
    if op == "log":
        return np.log(A[0])
    if op == "sin":
        return np.sin(A[0])
    if op == "cos":
        return np.cos(A[0])
    if op == "atan":
        return np.arctan(A[0])
    if op == "asin":
        return np.arcsin(A[0])
    if op == "acos":
        return np.arccos(A[0])
    if op == "atan2":
        return np.arctan2(A[0], A[1])
    if op == "asinh":
        return np.arcsinh(A[0])
    if op == "acosh":
        return np.arccosh(A[0])
    if op == "atanh":
        return np.arctanh(A[0])
    if op == "abs":
        return np.abs(A[0])
    if op == "floor":
        return np.floor(A[0])
    if op == "ceil":
        return np.ceil(A[0])
    if op == "trunc":
        return np.trunc(A[0])
    if op == "round":
        return np.round(A[0])
    if op == "mod":
        return np.fmod(A[0], A[1])
    if op == "lt":
        return A[0] < A[1]
    if op == "le":
        return A[0] <= A[1]
    if op == "eq":
        return A[0] == A[1]
    if op == "not":
        return ~A[0]
    if op == "and":
        return A[0] & A[1]
    if op == "or":
        return A[0] | A[1]
    if op == "ite":
        return np.where(A[0], A[1], A[2])
    if op == "tab":
        arr = TABLES[n.val]
        i = np.clip(np.nan_to_num(A[0].astype(float)), 0, len(arr) - 1).astype(int)
        return arr[i].astype(dtype)
    if op == "ss":
        tid, side = n.val
        return np.searchsorted(TABLES[tid], A[0].astype(float), side=side).astype(dtype)
    if op == "interp":
        tx, ty, left, right = n.val
        return np.interp(A[0].astype(float), TABLES[tx], TABLES[ty], left=left, right=right).astype(dtype)
    if op == "solve":
        # val = (i, size); args = A entries row-major then b entries
        i, m = n.val
        M = np.stack([np.asarray(a, float) for a in A[: m * m]], -1).reshape(-1, m, m)
        b = np.stack([np.asarray(a, float) for a in A[m * m :]], -1)[..., None]
        try:
            return np.linalg.solve(M, b)[:, i, 0].astype(dtype)
        except np.linalg.LinAlgError:
            return np.full(K, np.nan, dtype)
    if op == "uf":
        raise Unsupported(f"cannot evaluate uninterpreted function {n.val}")
    raise Unsupported(f"evaluate: {op}")


def substitute(roots, mapping):
    """Rebuild roots with mapping {node: node} applied bottom-up."""
    memo = {k.id: v for k, v in mapping.items()}
    for n in topo(roots):
        if n.id in memo:
            continue
        memo[n.id] = rebuild(n, [memo[a.id] if isinstance(a, Node) else a for a in n.args])
    return [memo[r.id] for r in roots]


def rebuild(n, A):
    op = n.op
    if not n.args or all(a is b for a, b in zip(A, n.args)):
        return n
    if op == "add":
        return add(*A)
    if op == "mul":
        return mul(*A)
    if op == "powr":
        return powr(A[0], n.val)
    if op == "abs":
        return abs_(A[0])
    if op == "lt":
        return lt(*A)
    if op == "le":
        return le(*A)
    if op == "eq":
        return eq(*A)
    if op == "not":
        return not_(A[0])
    if op == "and":
        return and_(*A)
    if op == "or":
        return or_(*A)
    if op == "ite":
        return ite(*A)
    if op == "tab":
        return tab(n.val, A[0])
    if op == "ss":
        return ss(n.val[0], A[0], n.val[1])
    if op == "interp":
        return interp(A[0], *n.val)
    if n.val is None:
        return fn(op, *A)
    return _mk(op, tuple(A), n.val)
