"""Analytic LIGO-I noise curve."""
from fractions import Fraction as Fr

import numpy as np

from vf import m, expr as E
from checks.psd import resolve, is_inf

LEVEL = "model_checking"
EXPLAIN = "S(f) = 9e-46 ((4.49 x)^-56 + 0.16 x^-4.52 + 0.52 + 0.32 x^2), x = f/150 Hz, for every f above 40 Hz and +inf at and below 40 Hz; positive everywhere; f_range is (40, 1e4)"
TASK_NAMES = ["LIGOI"]
OUTSIDE = "frequencies above 2e4 Hz; float rounding"


def LIGOI(ctx):
    from ripplegw import noise
    S = noise.Sn_LIGOI
    EPS = 1e-9

    def formula(v, run):
        f = v["f"]
        x = f / 150.0
        want = 9e-46 * (m.P(4.49 * x, -56) + 0.16 * m.P(x, Fr(-113, 25)) + 0.52 + 0.32 * x * x)
        a = m.el(run(S, f))
        if m.symbolic(a):
            a = resolve(a, {"f": (40.0 + EPS, 2e4)})
        b = m.el(run(S, [f, f]), 1)
        if m.symbolic(b):
            b = resolve(b, {"f": (40.0 + EPS, 2e4)})
        return [("formula", a * 1e46, want * 1e46), ("array input", b * 1e46, want * 1e46)]

    def low(v, run):
        a = m.el(run(S, v["f"]))
        if m.symbolic(a):
            a = resolve(a, {"f": (0.0, 40.0)})
        return [("infinite", is_inf(a), 1.0 + 0.0 * v["f"])]

    ctx.equal("formula", formula, {"f": (40.0 + EPS, 2e4)}, validate=6)
    ctx.equal("cutoff", low, {"f": (0.0, 40.0)}, validate=6, sampler=edge)
    r = tuple(float(x) for x in noise.f_range_LIGOI)
    ctx.fact("f_range", r == (40.0, 1e4), r)


def edge(box, rng, K):
    lo, hi = box["f"]
    f = rng.uniform(lo, hi, K)
    f[0] = hi
    return {"f": f.astype(np.longdouble)}


TASKS = {"LIGOI": LIGOI}
