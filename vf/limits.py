"""One-sided limits of symbolically executed code at its own branch points.

The comparisons of the executed expression that depend on one input x are
collected from the code's jaxpr; where such a comparison is affine in x its
root is an expression of the other inputs, and the two one-sided limits there
are the expression with that comparison resolved either way and x replaced by
the root everywhere."""
import numpy as np

from . import expr as E, prove
from .expr import Cx


def _roots(vals):
    out = []
    for a in vals:
        out += [a.re, a.im] if isinstance(a, Cx) else [E.N(a)]
    return out


def depends(roots, x):
    dep = set()
    for n in E.topo(roots):
        if n is x or any(getattr(a, "id", None) in dep for a in n.args):
            dep.add(n.id)
    return dep


class Boundary:
    def __init__(self, root, probe):
        self.root, self.probe, self.guards = root, probe, {}


def boundaries(vals, x, box, seed=3, K=5):
    """Branch points in x of the values, one entry per distinct root."""
    roots = _roots(vals)
    dep = depends(roots, x)
    env = prove.draw(box, np.random.default_rng(seed), K)
    out, odd = [], []
    for n in E.topo(roots):
        if n.op not in E.CMP or n.id not in dep:
            continue
        g = E.sub(E.toreal(n.args[0]), E.toreal(n.args[1]))
        g0, g1, g2 = (E.substitute([g], {x: E.const(c)})[0] for c in (0.0, 1.0, 2.0))
        z = E.evaluate([g0, g1, g2], env)
        a, b, c = (z[k.id] * np.ones(K) for k in (g0, g1, g2))
        s = np.abs(a) + np.abs(b) + 1e-300
        if not np.all(np.isfinite(a + b + c)) or np.any(np.abs(a - 2 * b + c) > 1e-9 * s) or np.any(a == b):
            odd.append(n)
            continue
        root = E.div(E.neg(g0), E.sub(g1, g0))
        p = -a / (b - a)
        for q in out:
            if np.all(np.abs(q.probe - p) <= 1e-9 * np.abs(p)):
                break
        else:
            q = Boundary(root, p)
            out.append(q)
        up = np.unique(np.sign(np.asarray(b - a, dtype=float)))
        q.guards[n.id] = (n, int(up[0]) if len(up) == 1 else 0)
    return out, odd


def one_sided(vals, x, b, side, order=(), shift=None):
    """Limit of the values as x tends to the boundary from the given side;
    order: pairs of boundaries (lower, upper) whose order is assumed.  With
    shift, that side's branch continued to shift times the boundary."""
    roots = _roots(vals)
    mp = {x: b.root if shift is None else E.mul(E.const(shift), b.root)}
    for n, up in b.guards.values():
        if up == 0:
            raise E.Unsupported("slope of a guard changes sign")
        neg = up * side < 0  # args[0] - args[1] < 0 there
        mp[n] = E.FALSE if n.op == "eq" else E.const(bool(neg))
    for lo, hi in order:
        if b in (lo, hi):
            for n, up in (hi if b is lo else lo).guards.values():
                if up == 0:
                    continue
                neg = up * (-1 if b is lo else 1) < 0
                mp[n] = E.FALSE if n.op == "eq" else E.const(bool(neg))
    r = iter(E.substitute(roots, mp))
    return [Cx(next(r), next(r)) if isinstance(a, Cx) else next(r) for a in vals]


def distinct(A, B, box, seed=4, K=8, tol=1e-9):
    """Do the values differ somewhere on drawn points?"""
    env = prove.draw(box, np.random.default_rng(seed), K)
    ra, rb = _roots(A), _roots(B)
    z = E.evaluate(ra + rb, env)
    for a, b in zip(ra, rb):
        u, w = z[a.id] * np.ones(K), z[b.id] * np.ones(K)
        with np.errstate(all="ignore"):
            if np.any(np.abs(u - w) > tol * (np.abs(u) + np.abs(w))):
                return True
    return False
