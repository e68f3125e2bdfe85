"""Path-splitting equivalence prover on canonical polynomials, with solver
feasibility of every path and concretisation of disagreements."""
import math
import time
from fractions import Fraction
import numpy as np
from . import expr as E, smt
from .smt import z3
from .canon import Canon, NeedSplit, TooBig, Undefined
from .expr import Node, Cx, Unsupported


class Result:
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.proved = 0
        self.undefined = 0
        self.undecided = []   # (label, path description, reason)
        self.counterexample = None  # (label, env, lhs, rhs)
        self.stats = {}
        self.nodes = 0

    @property
    def ok(self):
        return not self.undecided and self.counterexample is None


class CanonEnc:
    """Canonical polynomials -> z3, unfolding atom definitions to a depth."""

    def __init__(self, C, depth):
        self.C = C
        self.depth = depth
        self.side = []
        self.v = {}
        self.lvl = {}
        self.rt = {}
        self.ex = {}

    def atom(self, a, lvl=0):
        if a in self.v:
            return self.v[a]
        at = self.C.atoms[a]
        x = z3.Real(f"a{a}" if at.kind != "var" else at.data)
        self.v[a] = x
        lo, hi = at.iv
        if lo > -math.inf:
            self.side.append(x >= smt.zv(smt.rat(lo)) if (at.kind == "var" and lo == 0) or lo != 0 else x >= 0)
        if hi < math.inf:
            self.side.append(x <= smt.zv(smt.rat(hi)))
        g = self.C.path.get(a)
        if g is not None:
            self.side.append({1: x > 0, -1: x < 0, 0: x == 0, 2: x >= 0, -2: x <= 0}[g])
        if at.kind == "sum" and lvl < self.depth:
            p = self.poly(at.defn, lvl + 1)
            if p is not None:
                self.side.append(x == p)
        elif at.kind == "abs":
            p = self.poly(at.defn, lvl)
            if p is not None:
                self.side.append(x == z3.If(p >= 0, p, -p))
        return x

    def root(self, a, d, lvl):
        if d == 1:
            return self.atom(a, lvl)
        k = (a, d)
        if k not in self.rt:
            x = self.atom(a, lvl)
            y = z3.Real(f"r{a}_{d}")
            self.rt[k] = y
            e = y
            for _ in range(d - 1):
                e = e * y
            self.side += [y >= 0, e == x]
        return self.rt[k]

    def poly(self, P, lvl=0):
        if any(e for _, e in P) or any(abs(c.imag) > 0 for c, _ in P.values()):
            return None
        # common denominators of exponents per atom
        t = []
        for (m, _), (c, _) in sorted(P.items(), key=repr):
            x = smt.zv(smt.rat(c.real))
            for a, q in m:
                y = self.root(a, self.den(a, P), lvl)
                n = int(q * self.den(a, P))
                if n < 0:
                    ik = (a, self.den(a, P), "inv")
                    if ik not in self.rt:
                        iv = z3.Real(f"i{a}_{self.den(a, P)}")
                        self.rt[ik] = iv
                        self.side.append(iv * y == 1)
                    y = self.rt[ik]
                for _ in range(abs(n)):
                    x = x * y
            t.append(x)
        return z3.Sum(t) if t else z3.RealVal(0)

    def den(self, a, P):
        d = self._den.get(a) if hasattr(self, "_den") else None
        if not hasattr(self, "_den"):
            self._den = {}
        if d is None:
            d = 1
            for at in self.C.atoms:
                pass
            d = self.C.den_of(a)
            self._den[a] = d
        return d


def feasible(C, path, depths=(1, 3), timeout=300):
    """False only when the solver shows the sign assignment impossible."""
    if not path:
        return True
    ok = np.ones(C.K, bool)
    for a, g in path.items():
        if isinstance(a, int):
            v = C.atoms[a].val.real
            ok &= {1: v > 0, -1: v < 0, 0: v == 0, 2: v >= 0, -2: v <= 0}[g]
    if ok.any():
        return True
    save = C.path
    C.path = path
    try:
        for d in depths:
            enc = CanonEnc(C, d)
            try:
                for a in path:
                    if isinstance(a, int):
                        enc.atom(a)
                if len(enc.side) > 400:
                    break
                r, _ = smt.check(enc.side, timeout, "path-feasibility")
            except (Unsupported, z3.Z3Exception):
                return True
            if r == "unsat":
                return False
            if r == "unknown":
                return True
        return True
    finally:
        C.path = save


def box_sign(C, a, size=12, total=40, timeout=400):
    """Interval (-inf|0, 0|inf) of a small sum atom shown by the solver.
    Variables carry their box bounds only, never path assumptions."""
    at = C.atoms[a]
    if len(at.defn) > size:
        return -math.inf, math.inf
    v = at.val.real
    save, C.path = C.path, {}
    try:
        enc = CanonEnc(C, 3)
        x = enc.atom(a)
        if len(enc.side) > total:
            return -math.inf, math.inf
        lo, hi = -math.inf, math.inf
        if np.all(v >= 0) and smt.check(enc.side + [x < 0], timeout, "box-sign")[0] == "unsat":
            lo = 0.0
        elif np.all(v <= 0) and smt.check(enc.side + [x > 0], timeout, "box-sign")[0] == "unsat":
            hi = 0.0
        return lo, hi
    except (Unsupported, z3.Z3Exception):
        return -math.inf, math.inf
    finally:
        C.path = save


def as_cpoly(C, x):
    if isinstance(x, Cx):
        P = C.poly(x.re)
        Q = C.poly(x.im)
        return C.add(P, C.scale(Q, 1j))
    return C.poly(x)


def roots_of(pairs):
    out = []
    for _, a, b in pairs:
        for x in (a, b):
            out += [x.re, x.im] if isinstance(x, Cx) else [E.N(x)]
    return out


def numeric(pairs, env):
    """[(label, lhs array, rhs array)]"""
    v = E.evaluate(roots_of(pairs), env)
    g = lambda x: (v[x.re.id] + 1j * v[x.im.id]) if isinstance(x, Cx) else v[E.N(x).id]
    return [(l, g(a), g(b)) for l, a, b in pairs]


def draw(box, rng, K, sampler=None):
    env = {}
    for k, (lo, hi) in box.items():
        if lo > 0 and hi / lo > 50:
            env[k] = np.exp(rng.uniform(math.log(lo), math.log(min(hi, lo * 1e8)), K))
        else:
            l = max(lo, -1e3)
            h = min(hi, l + 1e4)
            env[k] = rng.uniform(l, h, K)
    return env


def prove_equal(pairs, box, seed=1, tol=1e-9, K=6, positive=(), assume=(), limit=40, hard=20000,
                max_paths=400, budget=240.0, vtol=1e-6, sampler=None, canon_out=None, atol=None, concretise=True):
    """Prove lhs == rhs for each pair over the box, for every path."""
    R = Result()
    rng = np.random.default_rng(seed)
    pairs = [(l, E.N(a) if not isinstance(a, Cx) else a, E.N(b) if not isinstance(b, Cx) else b) for l, a, b in pairs]
    names = [n.val for n in E.variables(roots_of(pairs))]
    for nm in names:
        if nm not in box:
            raise Unsupported(f"variable {nm} has no bounds")
    R.nodes = len(E.topo(roots_of(pairs)))
    env = (sampler or draw)(box, rng, K)
    C = Canon(env, box, limit=limit, hard=hard)
    C.sign_solver = box_sign
    if canon_out is not None:
        canon_out.append(C)
    t0 = time.time()
    for p in positive:
        C.assume_positive(p)
    stack = [({}, tuple(range(len(pairs))))]
    npaths = 0
    while stack:
        path, todo = stack.pop()
        if time.time() - t0 > budget or npaths > max_paths:
            R.undecided.append((",".join(pairs[i][0] for i in todo)[:60], desc(C, path), "budget"))
            break
        C.set_path(path)
        try:
            for c in assume:
                if not C.cond(c):
                    raise Infeasible()
        except NeedSplit as e:
            branch(C, R, stack, path, e.atom, todo)
            continue
        except Infeasible:
            R.pruned += 1
            continue
        except (Unsupported, TooBig) as e:
            R.undecided.append(("assumption", desc(C, path), f"{type(e).__name__}: {e}"))
            continue
        split, left = None, []
        for i in todo:
            label, a, b = pairs[i]
            try:
                try:
                    PA = as_cpoly(C, a)
                except Undefined:
                    PA = None
                try:
                    PB = as_cpoly(C, b)
                except Undefined:
                    PB = None
                if PA is None and PB is None:
                    # both sides are NaN (or the path is empty)
                    R.undefined += 1
                    continue
                if PA is None or PB is None:
                    raise Undefined("one side is undefined on this path")
            except NeedSplit as e:
                split = split or e.atom
                left.append(i)
                continue
            except (Unsupported, TooBig) as e:
                R.undecided.append((label, desc(C, path), f"{type(e).__name__}: {e}"))
                continue
            D = C.add(PA, PB, -1.0)
            cand = C.split_candidates([D]) if D else []
            if len(cand) > 1:
                # conditions occurring on one side only come first
                ca, cb = C.split_candidates([PA]), C.split_candidates([PB])
                only = [k for k in cand if (k in ca) != (k in cb)]
                cand = only or cand
            verdict = "open" if cand and differs(C, D) else decide(C, PA, PB, tol)
            if verdict != "unsat":
                if cand:
                    split = split or cand[0]
                    left.append(i)
                    continue
            R.paths += 1
            if verdict == "unsat":
                R.proved += 1
            else:
                R.undecided.append((label, desc(C, path), verdict))
                if canon_out is not None:
                    C.last = (PA, PB, dict(path))
        if left:
            branch(C, R, stack, path, split, tuple(left))
        else:
            npaths += 1
        if len(R.undecided) > 12:
            break
    C.set_path({})
    R.stats.update(C.stats)
    R.stats["canon_s"] = round(time.time() - t0, 2)
    R.canon = C
    if R.undecided and concretise:
        R.counterexample = concretize(pairs, box, R, C, rng, vtol, assume, sampler, atol)
    return R


def branch(C, R, stack, path, at, todo):
    op = None
    if isinstance(at, tuple) and at[0] != "bvar":
        at, op = at
    if isinstance(at, tuple):
        for s in (True, False):
            q = dict(path)
            q[at[1]] = s
            stack.append((q, todo))
        return
    R.stats["splits"] = R.stats.get("splits", 0) + 1
    old = path.get(at)
    if old is None:
        vals = {"lt": (-1, 2), "le": (-2, 1)}.get(op, (0, -1, 1))
    else:
        vals = (0, 1) if old > 0 else (-1, 0)
    for s in vals:
        q = dict(path)
        q[at] = s
        iv = C.atoms[at].iv
        if (s == 1 and iv[1] <= 0) or (s == -1 and iv[0] >= 0) or (s == 0 and (iv[0] > 0 or iv[1] < 0)) \
                or (s == 2 and iv[1] < 0) or (s == -2 and iv[0] > 0):
            continue
        if feasible(C, q):
            stack.append((q, todo))
        else:
            R.pruned += 1


class Infeasible(Exception):
    pass


def differs(C, D):
    v, mg = C.pval(D), C.pmag(D)
    fin = np.isfinite(v) & np.isfinite(mg)
    return bool(fin.any() and not np.all(np.abs(v[fin]) <= 1e-7 * mg[fin]))


def decide(C, PA, PB, tol):
    r, _ = smt.residual(PA, PB, tol)
    if r == "unsat":
        return r
    D = C.add(PA, PB, -1.0)
    if differs(C, D):
        return "sat: canonical forms differ"
    # numerically equal but not syntactically: clear denominators, expand
    try:
        G = C.clear(D, C.hard)
    except TooBig:
        return "too big to expand"
    if not G:
        r, _ = smt.residual({}, {}, tol)
        return "unsat"
    r, _ = smt.residual(G, {}, tol)
    return "unsat" if r == "unsat" else "unproved: residual after expansion"


def desc(C, path):
    out = []
    for a, s in path.items():
        if isinstance(a, int):
            out.append(f"{atom_str(C, a)}{({1: '>', -1: '<', 0: '=', 2: '>=', -2: '<='})[s]}0")
        else:
            out.append(f"{a}={s}")
    return "; ".join(out)[:600]


def atom_str(C, a):
    at = C.atoms[a]
    if at.kind == "var":
        return at.data
    if at.kind == "sum":
        t = []
        for (m, e), (c, _) in list(at.defn.items())[:4]:
            t.append(f"{c.real:.4g}" + "".join(f"*{C.atoms[x].data if C.atoms[x].kind == 'var' else '#%d' % x}^{q}" for x, q in m))
        return "(" + "+".join(t) + ("..." if len(at.defn) > 4 else "") + ")"
    return f"#{a}"


def concretize(pairs, box, R, C, rng, vtol, assume=(), sampler=None, atol=None):
    """Find a concrete input on which the two sides differ: solver models of
    the node-level path conditions first, then points of the box."""
    best = None
    conds = [n for n in E.topo(roots_of(pairs)) if n.op in ("lt", "le", "eq")]
    cand = []
    # solver-chosen points: one per condition polarity
    t0 = time.time()
    for c in conds[:60]:
        for pol in (True, False):
            if time.time() - t0 > 20:
                break
            try:
                enc = smt.Enc(box=box)
                z = enc(c)
                extra = [enc(x) for x in assume]
                r, m = smt.check(enc.side + extra + [z if pol else z3.Not(z)], 800, "witness")
                if m is None:
                    continue
                cand.append({k: smt.mval(m, enc.vars[k]) if k in enc.vars else None for k in box})
            except (Unsupported, z3.Z3Exception):
                continue
    envs = [(sampler or draw)(box, rng, 400)]
    # corners and faces of the box
    e = draw(box, rng, 200)
    for k, (lo, hi) in box.items():
        mask = rng.random(200)
        e[k] = np.where((mask < 0.15) & (lo > -1e30), lo, np.where((mask > 0.85) & (hi < 1e30), hi, e[k]))
    envs.append(e)
    for c in cand:
        base = draw(box, rng, 12)
        for k in box:
            if c.get(k) is not None:
                lo, hi = box[k]
                w = (hi - lo if hi - lo < 1e6 else abs(c[k]) + 1)
                base[k] = np.clip(np.r_[[c[k]] * 4, c[k] + w * 1e-6 * rng.standard_normal(4), c[k] + w * 1e-3 * rng.standard_normal(4)], lo, hi)
        envs.append(base)
    for env in envs:
        try:
            ok = np.ones(len(next(iter(env.values()))), bool)
            if assume:
                v = E.evaluate(list(assume), env)
                for x in assume:
                    ok &= np.asarray(v[x.id], bool)
            for label, a, b in numeric(pairs, env):
                d = np.abs(a - b)
                s = np.maximum(np.abs(a), np.abs(b)) if atol is None else np.maximum(np.maximum(np.abs(a), np.abs(b)), atol)
                with np.errstate(all="ignore"):
                    rel = np.where(s > 0, d / np.where(s > 0, s, 1), 0.0)
                na, nb = ~np.isfinite(a), ~np.isfinite(b)
                rel = np.where(na & ~nb, 10.0, np.where(nb, 0.0, rel))
                rel = np.where(ok, rel, 0)
                i = int(np.argmax(rel))
                if rel[i] > vtol and (best is None or rel[i] > best[0]):
                    best = (float(rel[i]), label, {k: float(x[i]) for k, x in env.items()}, complex(a[i]), complex(b[i]))
                    if rel[i] > 1e-2:
                        return best[1:]
        except Unsupported:
            pass
    return best[1:] if best else None
