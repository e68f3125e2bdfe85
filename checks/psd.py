"""Resolution of lookups and conditionals over a box, by the solver."""
import math
import numpy as np
import z3

from vf import smt, expr as E
from vf.expr import Node


def decide(cond, box):
    """Truth value of a condition over the box, or None."""
    enc = smt.Enc(box=box)
    z = enc(cond)
    if smt.check(enc.side + [z], 5000, "condition")[0] == "unsat":
        return False
    if smt.check(enc.side + [z3.Not(z)], 5000, "condition")[0] == "unsat":
        return True
    return None


def resolve(root, box, name="f"):
    """Choose the branches that the box decides and crop the tables to it."""
    memo = {}

    def interp(x, val):
        tx, ty, left, right = val
        xp, fp = E.TABLES[tx], E.TABLES[ty]
        if E.isnum(x):
            return E.interp(x, tx, ty, left, right)
        lo, hi = E.const(float(xp[0])), E.const(float(xp[-1]))
        if decide(E.lt(x, lo), box):
            return E.const(left)
        if decide(E.lt(hi, x), box):
            return E.const(right)
        if decide(E.lt(x, lo), box) is None or decide(E.lt(hi, x), box) is None or x.op != "var":
            return E._mk("interp", (x,), val)
        a, b = box[x.val]
        i = max(0, int(np.searchsorted(xp, a, "right")) - 1)
        j = min(len(xp) - 1, int(np.searchsorted(xp, b, "left")))
        if np.all(fp[i:j + 1] == fp[i]):
            return E.const(float(fp[i]))
        return E.interp(x, E.table_id(xp[i:j + 1]), E.table_id(fp[i:j + 1]), 0.0, 0.0)

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.op == "ite":
            c = go(n.args[0])
            t = c.val if c.op == "bool" else decide(c, box)
            r = E.ite(c, go(n.args[1]), go(n.args[2])) if t is None else go(n.args[1] if t else n.args[2])
        elif n.op == "interp":
            r = interp(go(n.args[0]), n.val)
        elif n.op in ("num", "bool", "var", "nan"):
            r = n
        else:
            r = E.rebuild(n, [go(a) if isinstance(a, Node) else a for a in n.args])
        memo[n.id] = r
        return r

    return go(root)


def is_inf(x):
    """1 when the value is +inf (symbolic: resolved to the constant inf)."""
    if isinstance(x, Node):
        if x.op == "num":
            return E.const(float(x.val == math.inf))
        raise E.Unsupported("not resolved to a constant over the box")
    return float(x == math.inf)
