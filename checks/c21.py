"""The phase and its slope are continuous where the code changes branch."""
import jax
import numpy as np

from vf import m, limits, expr as E
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "The generator and its frequency derivative (jax.jvp) are executed symbolically; the comparisons that depend on the frequency are collected from the result, their roots are solved for, and at every root at which the phase changes branch the one-sided limits of the strain and of the phase slope Im(h'/h) are compared: the solver decides their equality over the whole box of masses and spins. The branch points are those of the code, not of a reference, so that a region border and the place where the pieces are joined have to agree"
TASK_NAMES = ["D", "XAS"]
OUTSIDE = "inputs at which the region borders are not in their usual order (checked on 400 points of the box; at least 2e-4 in M f apart); the amplitude at its own region borders; the end of the model (M f = 0.2, 0.3); the other models, which use these phases"
CUT = {"D": 0.2, "XAS": 0.3}
GAP = 2e-4


def task(name):
    def t(ctx):
        G = lib.gen(name, False)
        bx = lib.box("M", "d", "chi1", "chi2", d=(0.0, 0.8), chi1=(-0.9, 0.9), chi2=(-0.9, 0.9))

        def slope(f, p, fr):
            return jax.jvp(lambda q: G(q, p, fr), (f,), (f,))

        slope.vf_name = f"jvp of {G.__module__}.{G.__qualname__}"

        def Q(v, run, x):
            w = dict(v, tc=0.0, phic=0.0, D=1.0)
            h, dh = run(slope, [x / (v["M"] * lib.MSUN_S)], lib.params(name, w), 0.005 / (v["M"] * lib.MSUN_S))
            return [m.el(h) * 1e20, m.el(dh) * 1e20]

        x = E.var("x")
        vals = Q({k: E.var(k) for k in bx}, ctx.sym, x)
        bs, odd = limits.boundaries(vals, x, bx, K=400)
        bs.sort(key=lambda b: np.median(b.probe))
        order = [(a, b) for i, a in enumerate(bs) for b in bs[i + 1:] if np.all(a.probe + GAP < b.probe)]
        if odd:
            ctx.note(f"{len(odd)} comparisons are not affine in the frequency and are not examined")

        def at(b, v):
            return float(E.evaluate([b.root], {k: np.array([q]) for k, q in v.items()})[b.root.id][0])

        def assume(v):
            if m.symbolic(*v.values()):
                return []
            return [at(a, v) + GAP <= at(b, v) for a, b in order]

        bs = [b for b in bs if np.all(b.probe > 1e-3) and np.all(abs(b.probe - CUT[name]) > 1e-3)]
        n = 0
        for b in bs:
            # the two branches away from the border: which of them differ?
            l, r = (limits.one_sided(vals, x, b, s, order, shift=1.02) for s in (-1, 1))
            if limits.distinct([m.abs2(l[0])], [m.abs2(r[0])], bx):
                continue
            n += 1

            def pair(v, run):
                if run.symbolic:
                    return [limits.one_sided(vals, x, b, s, order) for s in (-1, 1)]
                return [Q(v, run, at(b, v) * (1 + s * 1e-10)) for s in (-1, 1)]

            def strain(v, run):
                l, r = pair(v, run)
                return [("strain", l[0], r[0])]

            def dphase(v, run):
                l, r = pair(v, run)
                d = lambda q: m.im(q[1] * m.conj(q[0])) / m.abs2(q[0])
                return [("phase slope", d(l), d(r))]

            ctx.equal(f"strain at phase border {n}", strain, bx, vtol=1e-5, assume=assume)
            ctx.equal(f"phase slope at border {n}", dphase, bx, vtol=1e-5, assume=assume)
        ctx.fact("phase borders found", n >= 2, f"{n} borders inside the model at which the phase changes branch") if n >= 2 else \
            ctx.record("phase borders found", "undecided", reason=f"{n} borders found")
        ctx.note("region borders are where the code's own comparisons change; they are taken in their usual order")
    return t


TASKS = {n: task(n) for n in TASK_NAMES}
