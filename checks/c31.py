"""Exchange of the two bodies of an equal-mass binary."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "for equal masses, exchanging the spins and deformabilities of the bodies leaves the strain of every aligned-spin model unchanged (with combined tidal parameters: the sign of delta Lambda~ flips); decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0"]
OUTSIDE = "unequal masses (the models label the heavier body 1); float rounding"


def aligned(name):
    def task(ctx):
        lam = "L" in name[3:]

        def prop(v, run):
            over = dict(chi1=v["chi2"], chi2=v["chi1"])
            if lib.tidal(name):
                over.update(dict(l1=v["l2"], l2=v["l1"]) if lam else dict(l2=-v["l2"]))
            v = dict(v, d=0.0)
            a = lib.hphc(run, name, v, [lib.fr(v)])
            b = lib.hphc(run, name, v, [lib.fr(v)], **over)
            return [("hp", m.el(b[0]), m.el(a[0])), ("hc", m.el(b[1]), m.el(a[1]))]

        bx = lib.wbox(name)
        bx.pop("d")
        if lib.tidal(name) and not lam:
            # positive deformabilities: |32850.. dLt| small against Lt
            bx["l1"], bx["l2"] = (600.0, 5000.0), (-20.0, 20.0)
        bx["x"] = (1e-3, 0.1999)
        ctx.equal("exchange", prop, bx, vtol=2e-3)

        def bare(v, run):
            over = dict(chi1=v["chi2"], chi2=v["chi1"])
            if lib.tidal(name):
                over.update(dict(l1=v["l2"], l2=v["l1"]) if lam else dict(l2=-v["l2"]))
            v = dict(v, d=0.0)
            a = lib.h0(run, name, v, [lib.fr(v)])
            b = lib.h0(run, name, v, [lib.fr(v)], **over)
            return [("h0", m.el(b), m.el(a))]

        bx = {k: z for k, z in bx.items() if k != "iota"}
        ctx.equal("exchange, strain", bare, bx, validate=1, vtol=2e-3)

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES}
