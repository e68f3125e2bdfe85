"""Every output entry is a function of its own frequency and parameters."""
from functools import lru_cache
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "on a grid of three arbitrary frequencies (any order, any spacing, repeated or not) each entry of both polarizations equals the value of the generator at that single frequency, and in a batch of two arbitrary parameter vectors under vmap each row equals the generator at that row; decided by the solver over the whole parameter box for every generator"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "P", "PMc", "SG"]
OUTSIDE = "inputs outside the listed boxes; grids of more than three entries and batches of more than two rows (the code is written elementwise); float rounding"


@lru_cache(None)
def batched(name):
    import jax

    g = lib.gen(name, True, lib.TF2_FREF if name.startswith("TF2") else None)
    h = (lambda f, P: jax.vmap(lambda p: g(f, p))(P)) if name.startswith("TF2") else (lambda f, P, r: jax.vmap(lambda p: g(f, p, r))(P))
    h.vf_name = f"vmap({lib.gen(name).__qualname__ if not hasattr(lib.gen(name), 'vf_name') else lib.gen(name).vf_name})"
    return h


def pair(a, i, b, j):
    return [("hp", m.el(a[0], *i), m.el(b[0], *j)), ("hc", m.el(a[1], *i), m.el(b[1], *j))]


def aligned(name):
    def task(ctx):
        for k in range(3):
            def prop(v, run):
                fs = [lib.fr(v, q) for q in ("x", "xa", "xb")]
                a = lib.hphc(run, name, v, fs)
                b = lib.hphc(run, name, v, [fs[k]])
                return pair(a, (k,), b, (0,))

            bx = lib.wbox(name)
            bx["xa"] = bx["xb"] = bx["x"] = (2e-5, 0.4 if k == 0 else 0.1999)
            ctx.equal(f"entry {k} of a grid", prop, bx, validate=1)

        # a batch: rows differ in every parameter the box has
        keys = [q for q in lib.wbox(name) if q not in ("x", "y", "M")]
        for k in range(2):
            def prop(v, run):
                w = dict(v, **{q: v[q + "'"] for q in keys}, M=v["M"])
                p, q = lib.params(name, v), lib.params(name, w)
                f = [lib.fr(v)]
                one = lib.hphc(run, name, (v, w)[k], f, fref=None if name.startswith("TF2") else lib.fr(v, "y"))
                ref = () if name.startswith("TF2") else (lib.fr(v, "y"),)
                two = run(batched(name), f, stack(p, q), *ref)
                return pair(two, (k, 0), one, (0,))

            bx = lib.wbox(name)
            bx.update({q + "'": bx[q] for q in keys})
            ctx.equal(f"row {k} of a batch", prop, bx, validate=1)

    return task


def stack(p, q):
    import numpy as np
    from vf import jx

    if m.symbolic(*p, *q):
        a = jx.arr(*p)
        b = jx.arr(*q)
        return np.stack([a, b])
    return np.array([p, q], dtype=float)


def precessing(name):
    def task(ctx):
        bx = dict(lib.PBOX)
        if name == "PMc":
            bx["m2"] = (0.05, 0.2499)
        bx["fa"] = bx["fb"] = bx["f"]
        asm = (lambda v: [m.le(v["m2"], v["m1"])]) if name == "P" else None
        for k in range(3):
            def prop(v, run):
                fs = [v["f"], v["fa"], v["fb"]]
                a = run(lib.gen(name), fs, lib.pparams(v), v["fref"])
                b = run(lib.gen(name), [fs[k]], lib.pparams(v), v["fref"])
                return pair(a, (k,), b, (0,))

            ctx.equal(f"entry {k} of a grid", prop, bx, assume=asm, validate=1)

    return task


def sine_gaussian(ctx):
    from ripplegw.waveforms.SineGaussian import gen_SineGaussian_hphc as g

    bx = {"t": (-0.2, 0.2), "ta": (-0.2, 0.2), "tb": (-0.2, 0.2), "q": (0.5, 30.0), "f": (10.0, 200.0),
          "hrss": (1e-24, 1e-18), "ph": (-7.0, 7.0), "e": (0.0, 0.99)}
    for k in range(3):
        def prop(v, run):
            th = [v[z] for z in ("q", "f", "hrss", "ph", "e")]
            ts = [v["t"], v["ta"], v["tb"]]
            a = run(g, ts, th)
            b = run(g, [ts[k]], th)
            return pair(a, (k,), b, (0,))

        ctx.equal(f"entry {k} of a grid", prop, bx)


TASKS = {n: aligned(n) for n in TASK_NAMES[:7]}
TASKS.update(P=precessing("P"), PMc=precessing("PMc"), SG=sine_gaussian)
