"""Tabulated noise curves."""
import hashlib
import os

import numpy as np

from vf import m, expr as E, check as K
from checks.psd import resolve, is_inf

LEVEL = "model_checking"
EXPLAIN = "every tabulated PSD equals the linear interpolation of its data file (squared where the file holds amplitudes) at every frequency of the file's range, +inf outside it and where the table is infinite; f_range is the range of the file; the tables are the published ones"
TASK_NAMES = ["aLIGO", "ce", "et", "aLIGOZeroDetHighPower", "O3a", "O2"]
OUTSIDE = "float rounding, and float32 (PSD values underflow there); jnp.interp itself is taken by contract (probed on its traced computation)"

FILES = {"aLIGO": ("aLIGO", True), "ce": ("ce", True), "et": ("et", True), "aLIGOZeroDetHighPower": ("aLIGOZeroDetHighPower", False),
         "O3a": ("O3a_Livingston_ASD", True), "O2": ("O2_ASD", True)}
DIGEST = {'aLIGO': 'eddf3042fbee899f', 'ce': '98dfea75fe5c77db', 'et': '777371e0e20cf081',
          'aLIGOZeroDetHighPower': '39f5b6a557abf909', 'O3a': '80a30565d6a822ab', 'O2': '3b8c4f49a50e53ea'}


def table(name):
    fn, asd = FILES[name]
    p = os.path.join(K.REPO, "src", "ripplegw", "noise_resources", fn + ".dat")
    xs, ys = [], []
    for line in open(p):
        t = line.split("#")[0].split()
        if t:
            xs.append(float(t[0]))
            ys.append(float(t[1]))
    x, y = np.array(xs), np.array(ys)
    d = hashlib.sha256(x.tobytes() + y.tobytes()).hexdigest()[:16]
    if asd:
        y = y * y
    y[y == 0.0] = np.inf
    return x, y, d


def psd(name):
    def task(ctx):
        from ripplegw import noise
        S = getattr(noise, "Sn_" + name)
        x, y, dig = table(name)
        S_ = lambda f: S(f)
        S_.vf_name = f"ripplegw.noise.Sn_{name}"
        fin = np.isfinite(y)
        k = int(np.argmax(fin))
        assert fin[k:].all()
        s = float(np.median(y[k:]))

        def at(v, run, box):
            a = m.el(run(S_, v["f"]))
            b = m.el(run(S_, [v["f"], v["f"]]), 1)
            if m.symbolic(a):
                a, b = resolve(a, box), resolve(b, box)
            return a, b

        def sampler(box, rng, K_):
            lo, hi = box["f"]
            f = np.exp(rng.uniform(np.log(max(lo, 1e-3)), np.log(hi), K_))
            f[0] = lo
            if K_ > 1:
                f[1] = hi
            inside = x[(x >= lo) & (x <= hi)]
            if K_ > 3 and len(inside):
                f[3:] = np.where(rng.random(K_ - 3) < 0.3, rng.choice(inside, K_ - 3), f[3:])
            return {"f": f.astype(np.longdouble)}

        inside = {"f": (float(x[k]), float(x[-1]))}

        def value(v, run):
            a, b = at(v, run, inside)
            if m.symbolic(v["f"]):
                w = E.interp(v["f"], E.table_id(x[k:]), E.table_id(y[k:]), 0.0, 0.0)
            else:
                w = np.interp(float(v["f"]), x[k:], y[k:])
            return [("scalar input", a * (1 / s), w * (1 / s)), ("array input", b * (1 / s), w * (1 / s))]

        def infinite(box):
            def f(v, run):
                a, b = at(v, run, box)
                return [("scalar input", is_inf(a), 1.0 + 0.0 * v["f"]), ("array input", is_inf(b), 1.0 + 0.0 * v["f"])]
            return f

        up, dn = 1.0 + 1e-12, 1.0 - 1e-12
        ctx.equal("interpolation", value, inside, validate=10, sampler=sampler, vtol=1e-5)
        bx = {"f": (1e-3, float(x[0]) * dn)}
        ctx.equal("below", infinite(bx), bx, validate=6, sampler=sampler)
        bx = {"f": (float(x[-1]) * up, 3 * float(x[-1]))}
        ctx.equal("above", infinite(bx), bx, validate=6, sampler=sampler)
        if k:
            bx = {"f": (float(x[0]), float(x[k - 1]))}
            ctx.equal("infinite entries", infinite(bx), bx, validate=10, sampler=sampler)
            bx = {"f": (float(x[k - 1]), float(x[k]) * dn)}
            ctx.equal("last infinite entry", infinite(bx), bx, validate=10, sampler=sampler)
        r = tuple(float(q) for q in getattr(noise, "f_range_" + name))
        ctx.fact("f_range", max(abs(r[0] / x[0] - 1), abs(r[1] / x[-1] - 1)) < 1e-6, r)
        ctx.fact("table", dig == DIGEST[name], f"{len(x)} entries, digest {dig}")

    return task


TASKS = {n: psd(n) for n in TASK_NAMES}
