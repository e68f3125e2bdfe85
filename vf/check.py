"""Obligations: a property instance is a Python function over its inputs; it
is executed symbolically (every repo function through its jaxpr) and decided
by the solver over the whole box, and re-executed on concrete inputs with the
real code for encoding validation and for replaying counterexamples."""
import json
import math
import os
import time
import traceback

import numpy as np
import jax
import jax.numpy as jnp

from . import expr as E, jx, smt, prove, canon
from .expr import Node, Cx, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class CodeError(Exception):
    """The code under test raised while being executed."""


class Stop(Exception):
    pass


def _spec(x):
    s = jx._abstract(x)
    return (tuple(s.shape), str(s.dtype))


class Sym:
    """Runner executing repo functions symbolically; jaxprs are cached."""

    symbolic = True

    def __init__(self):
        self.cache = {}
        self.functions = {}

    def __call__(self, fun, *args):
        is_leaf = lambda x: isinstance(x, (Node, Cx, np.ndarray))
        args = tuple(pack(a) for a in args)
        leaves, tree = jax.tree_util.tree_flatten(args, is_leaf=is_leaf)
        key = (fun, tree, tuple(_spec(l) for l in leaves))
        hit = self.cache.get(key)
        if hit is None:
            out = {}

            def flat(*ls):
                a = jax.tree_util.tree_unflatten(tree, ls)
                r = fun(*a)
                rl, rt = jax.tree_util.tree_flatten(r)
                out["t"] = rt
                return rl

            specs = [jx._abstract(l) for l in leaves]
            try:
                cj = jax.make_jaxpr(flat)(*specs)
            except Unsupported:
                raise
            except Exception as e:
                raise CodeError(f"{type(e).__name__}: {e}") from e
            hit = self.cache[key] = (cj, out["t"])
            n = name_of(fun)
            self.functions[n] = self.functions.get(n, 0) + count_eqns(cj.jaxpr)
        cj, t = hit
        vals = []
        for l in leaves:
            if isinstance(l, (Node, Cx)):
                vals.append(jx.scal(l))
            elif jx.is_sym(l):
                vals.append(jx.nodes(l))
            else:
                vals.append(np.asarray(l))
        try:
            outs = jx.run_closed(cj, vals)
        except (Unsupported, RecursionError):
            raise
        except Exception as e:
            raise Unsupported(f"engine: {type(e).__name__}: {e}") from e
        return jax.tree_util.tree_unflatten(t, outs)


class Real:
    """Runner executing repo functions with the real JAX."""

    symbolic = False

    def __init__(self, jit=False):
        self.jit = jit
        self.cache = {}

    def __call__(self, fun, *args):
        a = tuple(jnp.asarray(np.asarray(pack(x), dtype=None)) if not isinstance(x, (list, tuple)) else jnp.asarray(np.asarray(x)) for x in args)
        f = fun
        if self.jit:
            f = self.cache.get(fun)
            if f is None:
                f = self.cache[fun] = jax.jit(fun)
        try:
            r = f(*a)
        except Exception as e:
            raise CodeError(f"{type(e).__name__}: {e}") from e
        return jax.tree_util.tree_map(np.asarray, r)


def pack(x):
    """list/tuple of scalars or nodes -> vector."""
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, (Node, Cx)) for v in x):
            return jx.arr(*x)
        if any(isinstance(v, np.ndarray) for v in x):
            return np.stack([np.asarray(v) for v in x])
        return np.asarray(x)
    return x


def name_of(f):
    f = getattr(f, "vf_name", None) or f
    if isinstance(f, str):
        return f
    m = getattr(f, "__module__", "?")
    return f"{m}.{getattr(f, '__qualname__', f)}"


def count_eqns(j):
    n = 0
    for e in j.eqns:
        n += 1
        for p in e.params.values():
            for q in p if isinstance(p, (tuple, list)) else (p,):
                if hasattr(q, "jaxpr"):
                    q = q.jaxpr
                if hasattr(q, "eqns"):
                    n += count_eqns(q)
    return n


def rel(a, b, atol=0.0):
    """Relative difference of two concrete values, NaN aware."""
    a, b = complex(a), complex(b)
    fa, fb = math.isfinite(abs(a)) if a == a else False, math.isfinite(abs(b)) if b == b else False
    if not fb:
        if not fa:
            return 0.0 if (a == b or (a != a and b != b)) else (10.0 if abs(a) != abs(b) and b == b else 0.0)
        return 10.0 if b == b else 0.0
    if not fa:
        return 10.0
    s = max(abs(a), abs(b), atol)
    return abs(a - b) / s if s > 0 else 0.0


class Ctx:
    def __init__(self, pid, task, tier="quick", seed=1, mode="full", replay=None, known=(), tmax=400.0):
        self.pid, self.task, self.tier, self.seed = pid, task, tier, seed
        self.mode = mode  # full | concrete | replay
        self.replay_spec = replay
        self.known = known
        self.obl = []
        self.viol = []
        self.sym = Sym()
        self.real = Real()
        self.realj = Real(jit=True)
        self.rng = np.random.default_rng(seed * 7919 + sum(map(ord, pid + task)))
        self.validated = 0
        self.evals = 0
        self.t0 = time.time()
        self.tmax = tmax
        self.assumptions = []

    thorough = property(lambda s: s.tier == "thorough")

    def left(self):
        return self.tmax - (time.time() - self.t0)

    def note(self, *a):
        self.assumptions += [x for x in a if x not in self.assumptions]

    # ------------------------------------------------------------------
    def record(self, name, verdict, **kw):
        d = {"name": name, "verdict": verdict, **kw}
        self.obl.append(d)
        return d

    def violation(self, name, label, env, lhs, rhs, why):
        if any(v["name"] == name and v["label"] == label for v in self.viol):
            return
        self.viol.append({"property": self.pid, "task": self.task, "name": name, "label": label,
                          "env": {k: float(v) for k, v in env.items()}, "lhs": str(lhs), "rhs": str(rhs), "why": why})

    # concrete evaluation of a property ---------------------------------
    def concrete(self, prop, env):
        self.evals += 1
        v = {k: np.float64(x) for k, x in env.items()}
        return prop(v, self.real)

    def check_concrete(self, name, prop, env, cmp, why):
        """Run the property on the real code; record a violation."""
        try:
            rows = self.concrete(prop, env)
        except CodeError as e:
            self.violation(name, "raises", env, str(e)[:300], "a value", why + "; the code raises")
            return None
        bad = None
        for label, a, b in rows:
            e = cmp(a, b)
            if e is not None and (bad is None or e[0] > bad[0]):
                bad = (e[0], label, a, b, e[1])
        if bad is not None and bad[0] < 1e-2 and self.rounding(prop, env, rows, bad):
            bad = None
        if bad is not None:
            self.violation(name, bad[1], env, bad[2], bad[3], f"{why}; {bad[4]}")
        return rows

    def rounding(self, prop, env, rows, bad):
        """A small discrepancy is rounding, not a violation, when the values
        themselves move as much under perturbations of the inputs by an ulp
        (unphysical tides, say, where the phase exceeds 1e8 rad), or at equal
        masses, where sqrt(1 - 4 eta) turns an ulp of eta into 1e-8."""
        if any(k.rstrip("'") == "d" and abs(x) < 1e-5 for k, x in env.items()):
            return bad[0] < 1e-4
        d0 = abs(complex(bad[2]) - complex(bad[3]))
        rng = np.random.default_rng(5)
        for _ in range(3):
            e = {k: x * (1 + 4.5e-16 * float(rng.choice([-1, 0, 1]))) for k, x in env.items()}
            try:
                now = {l: (a, b) for l, a, b in self.concrete(prop, e)}
            except CodeError:
                return False
            a, b = now[bad[1]]
            if d0 <= 50 * max(abs(complex(a) - complex(bad[2])), abs(complex(b) - complex(bad[3]))):
                return True
        return False

    def _draw(self, box, K, sampler):
        env = (sampler or prove.draw)(box, self.rng, K)
        return [{k: float(v[i]) for k, v in env.items()} for i in range(K)]

    def _admissible(self, assume, env):
        if assume is None:
            return True
        return all(bool(x) for x in assume({k: np.float64(v) for k, v in env.items()}))

    def fallback(self, name, prop, box, cmp, sampler, assume, why, n=30, tmax=40.0):
        """Directed search on the real code; detects, never proves."""
        t = time.time()
        k = 0
        pts = self._points(box, n, sampler)
        for e in pts:
            if time.time() - t > tmax:
                return k
            if not self._admissible(assume, e):
                continue
            k += 1
            n0 = len(self.viol)
            t1 = time.time()
            self.check_concrete(name, prop, e, cmp, why)
            if len(self.viol) > n0:
                return k
            if time.time() - t1 > 0.3 and k >= 2:
                break  # slow eagerly: screen compiled, confirm eagerly
        else:
            return k
        t = time.time()
        for e in self._points(box, 10 * n, sampler):
            if time.time() - t > 1.5 * tmax:
                break
            if not self._admissible(assume, e):
                continue
            k += 1
            self.evals += 1
            try:
                rows = prop({q: np.float64(x) for q, x in e.items()}, self.realj)
            except Exception:
                break
            if any(cmp(a, b) is not None for _, a, b in rows):
                n0 = len(self.viol)
                self.check_concrete(name, prop, e, cmp, why)
                if len(self.viol) > n0:
                    break
        return k

    def _points(self, box, n, sampler):
        """Drawn points, a half of them with some inputs at their bounds."""
        pts = self._draw(box, n, sampler)
        for e in self._draw(box, n, None):
            for q, (lo, hi) in box.items():
                r = self.rng.random()
                if r < 0.12 and lo > -1e30:
                    e[q] = lo
                elif r > 0.88 and hi < 1e30:
                    e[q] = hi
            pts.append(e)
        return pts

    # ------------------------------------------------------------------
    def equal(self, name, prop, box, tol=1e-9, vtol=1e-6, assume=None, positive=None, budget=None, limit=40,
              validate=2, sampler=None, atol=0.0, max_paths=400, lemma=None, hard=20000):
        """prop(v, run) -> [(label, lhs, rhs)], to be equal for every v in box."""
        rec = {"kind": "equality", "box": {k: list(map(float, b)) for k, b in box.items()}}

        def cmp(a, b):
            d = rel(a, b, atol)
            return (d, f"relative difference {d:.3g}") if d > vtol else None

        if self.mode == "replay":
            if self.replay_spec["name"] == name:
                self.check_concrete(name, prop, self.replay_spec["env"], cmp, "replay")
            return
        if self.mode == "concrete":
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason="symbolic run did not finish", searched=k, **rec)
            return
        if self.thorough:
            validate, max_paths, budget = 4 * validate, 3 * max_paths, 1.5 * (budget or 240.0)
        t = time.time()
        q0 = smt.Log.queries
        try:
            v = {k: E.var(k) for k in box}
            pairs = prop(v, self.sym)
            asm = [E.tobool(E.N(x)) if not isinstance(x, Node) else x for x in (assume(v) if assume else [])]
            pos = positive(v) if positive else []
        except CodeError as e:
            k = self.fallback(name, prop, box, cmp, sampler, assume, f"tracing raises {str(e)[:120]}")
            self.record(name, "undecided", reason=f"tracing raises: {str(e)[:200]}", searched=k, **rec)
            return
        except (Unsupported, RecursionError) as e:
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason=f"not encodable: {e}", searched=k, **rec)
            return
        pairs = [(l, x, y) for l, x, y in pairs]
        # encoding validation against the real code
        n0 = len(self.viol)
        bad = self.validate(name, prop, pairs, box, validate, sampler, assume, cmp)
        if len(self.viol) > n0:
            self.record(name, "violated", wall_s=round(time.time() - t, 2), **rec)
            return
        if bad:
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason=f"encoding disagrees with the code: {bad}", searched=k, **rec)
            return
        if self.screen(name, prop, pairs, box, sampler, assume, cmp, vtol, atol):
            self.record(name, "violated", wall_s=round(time.time() - t, 2), **rec)
            return
        try:
            R = prove.prove_equal(pairs, box, seed=self.seed, tol=tol, positive=pos, assume=asm, limit=limit,
                                  max_paths=max_paths, budget=budget or max(20.0, min(self.left(), 240.0)), vtol=vtol,
                                  sampler=sampler, atol=atol or None, hard=hard)
        except (Unsupported, RecursionError) as e:
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason=f"not encodable: {e}", searched=k, **rec)
            return
        rec.update(labels=[l for l, _, _ in pairs], paths=R.paths, pruned=R.pruned, proved=R.proved, both_undefined=R.undefined, nodes=R.nodes,
                   queries=smt.Log.queries - q0, wall_s=round(time.time() - t, 2))
        if R.ok:
            if R.paths == 0:
                self.record(name, "undecided", reason="vacuous: no feasible path", **rec)
                return
            self.record(name, "proved", **rec)
            return
        n0 = len(self.viol)
        if R.counterexample:
            _, env, a, b = R.counterexample
            self.check_concrete(name, prop, env, cmp, "solver/encoding counterexample")
        if len(self.viol) == n0:
            self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
        if len(self.viol) > n0:
            self.record(name, "violated", **rec)
        else:
            self.record(name, "undecided", reason=str(R.undecided[:3])[:800], **rec)

    def screen(self, name, prop, pairs, box, sampler, assume, cmp, vtol, atol, n=24):
        """A plain counterexample to the encoded equality, before the proof
        is attempted: found on the encoding, replayed on the real code."""
        pts = self._points(box, 10 * n if self.thorough else n, sampler)
        try:
            num = prove.numeric(pairs, {k: np.array([e[k] for e in pts]) for k in box})
        except Exception:
            return False
        score = np.zeros(len(pts))
        for _, a, b in num:
            a, b = np.broadcast_to(a, len(pts)).astype(complex), np.broadcast_to(b, len(pts)).astype(complex)
            for i in range(len(pts)):
                if math.isfinite(abs(a[i])) or math.isfinite(abs(b[i])):
                    score[i] = max(score[i], rel(a[i], b[i], atol))
        tried = 0
        for i in np.argsort(-score):
            if score[i] <= 2 * vtol or tried >= 3:
                return False
            if not self._admissible(assume, pts[i]):
                continue
            tried += 1
            n0 = len(self.viol)
            self.check_concrete(name, prop, pts[i], cmp, "counterexample of the encoding")
            if len(self.viol) > n0:
                return True
        return False

    def validate(self, name, prop, pairs, box, n, sampler, assume, cmp, tol=1e-5):
        """Compare the encoding with the real code at drawn points."""
        pts = [e for e in self._draw(box, 4 * n, sampler) if self._admissible(assume, e)][:n]
        if not pts:
            return None
        env = {k: np.array([e[k] for e in pts]) for k in box}
        try:
            num = prove.numeric(pairs, env)
        except Exception as e:
            return f"{type(e).__name__}: {e}"
        for i, e in enumerate(pts):
            n0 = len(self.viol)
            rows = self.check_concrete(name, prop, e, cmp, "validation point")
            if rows is None:
                return "code raises"
            if len(self.viol) > n0:
                return None
            for (l, sa, sb), (l2, ra, rb) in zip(num, rows):
                for s, r in ((sa[i], ra), (sb[i], rb)):
                    d = rel(complex(s), complex(r), 1e-300)
                    if d > tol and abs(complex(r)) > 1e-290:
                        return f"{l} at {({k: round(x, 6) for k, x in e.items()})}: encoding {complex(s)} code {complex(r)}"
            self.validated += 1
        return None

    # ------------------------------------------------------------------
    def leq(self, name, prop, box, assume=None, slack=1e-9, validate=2, sampler=None, timeout=20000, lemmas=None,
            over=None, pieces=None, tactic=None):
        """prop(v, run) -> [(label, lhs, rhs)], lhs <= rhs for every v in box.
        slack is relative to 1+|rhs| for the concrete replay only."""
        rec = {"kind": "inequality", "box": {k: list(map(float, b)) for k, b in box.items()}}

        def cmp(a, b):
            a, b = float(np.real(a)), float(np.real(b))
            if not (a <= b + slack * (1 + abs(b))):
                return (abs(a - b) if a == a and b == b else 1.0, f"{a!r} > {b!r}")
            return None

        if self.mode == "replay":
            if self.replay_spec["name"] == name:
                self.check_concrete(name, prop, self.replay_spec["env"], cmp, "replay")
            return
        if self.mode == "concrete":
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason="symbolic run did not finish", searched=k, **rec)
            return
        t = time.time()
        q0 = smt.Log.queries
        try:
            v = {k: E.var(k) for k in box}
            rows = prop(v, self.sym)
            asm = list(assume(v)) if assume else []
        except CodeError as e:
            k = self.fallback(name, prop, box, cmp, sampler, assume, f"tracing raises {str(e)[:120]}")
            self.record(name, "undecided", reason=f"tracing raises: {str(e)[:200]}", searched=k, **rec)
            return
        except (Unsupported, RecursionError) as e:
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason=f"not encodable: {e}", searched=k, **rec)
            return
        n0 = len(self.viol)
        bad = self.validate(name, prop, rows, box, validate, sampler, assume, cmp)
        if len(self.viol) > n0:
            self.record(name, "violated", wall_s=round(time.time() - t, 2), **rec)
            return
        if bad:
            k = self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
            self.record(name, "undecided", reason=f"encoding disagrees with the code: {bad}", searched=k, **rec)
            return
        und, proved = [], 0
        n0 = len(self.viol)
        for label, a, b in rows:
            try:
                enc = smt.Enc(box=box)
                za, zb = enc(a), enc(b)
                za_s = [enc(x) if isinstance(x, Node) else x for x in asm]
                L = lemmas(enc, v, label) if lemmas else []
            except (Unsupported, RecursionError) as e:
                und.append((label, f"not encodable: {e}"))
                continue
            # reachability twin: the assumptions admit an input
            w, m = smt.check(enc.side + za_s + L, timeout, "reachability")
            if w == "unsat":
                und.append((label, "vacuous"))
                continue
            r, m = smt.prove(enc, za <= zb, za_s + L, timeout=timeout, kind="inequality")
            if r == "unsat":
                proved += 1
                continue
            if m is not None:
                env = {k: smt.mval(m, enc.vars[k]) if k in enc.vars else float(np.clip(0, *box[k])) for k in box}
                env = {k: float(np.clip(x, *box[k])) for k, x in env.items()}
                self.check_concrete(name, prop, env, cmp, "solver counterexample")
            if len(self.viol) == n0:
                und.append((label, r))
        rec.update(labels=[l for l, _, _ in rows], paths=len(rows), proved=proved, queries=smt.Log.queries - q0,
                   wall_s=round(time.time() - t, 2))
        if len(self.viol) == n0 and und:
            self.fallback(name, prop, box, cmp, sampler, assume, "directed search")
        if len(self.viol) > n0:
            self.record(name, "violated", **rec)
        elif und:
            self.record(name, "undecided", reason=str(und)[:800], **rec)
        else:
            self.record(name, "proved", **rec)

    # ------------------------------------------------------------------
    def fact(self, name, ok, detail="", env=None):
        """A finite fact evaluated once on this tree (shape, table, type)."""
        if self.mode == "replay" and self.replay_spec["name"] != name:
            return
        if ok:
            self.record(name, "proved", kind="finite fact", detail=str(detail)[:300])
        else:
            self.violation(name, "fact", env or {}, detail, "expected", "finite fact does not hold")
            self.record(name, "violated", kind="finite fact", detail=str(detail)[:300])

    def result(self):
        L = smt.Log
        return {
            "task": self.task, "obligations": self.obl, "violations": self.viol, "validated": self.validated,
            "evals": self.evals, "functions": self.sym.functions, "eqns": jx.Stats.eqns, "assumptions": self.assumptions,
            "solver": {"queries": L.queries, "unsat": L.unsat, "sat": L.sat, "unknown": L.unknown,
                       "time_s": round(L.time, 3), "kinds": L.kinds, "samples": L.samples, "cvc5": L.cvc5, "cvc5_agree": L.cvc5_agree},
            "wall_s": round(time.time() - self.t0, 2),
        }
