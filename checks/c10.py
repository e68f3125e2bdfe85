"""Inclination enters only through the (2,2)-mode polarization factors."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "hp(iota) = (1+cos^2 iota)/2 h0 and hc(iota) = -i cos(iota) h0, with h0 the strain of the generator without inclination, for every aligned-spin generator and all inclinations; decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0"]


def aligned(name):
    def task(ctx):
        def prop(v, run):
            hp, hc = lib.hphc(run, name, v, [lib.fr(v)])
            h = m.el(lib.h0(run, name, v, [lib.fr(v)]))
            c = m.cos(v["iota"])
            return [("hp", m.el(hp), h * (0.5 * (1.0 + c * c))), ("hc", m.el(hc), m.cx(0.0, -1.0) * h * c)]

        ctx.equal("polarizations", prop, lib.wbox(name, iota=(-7.0, 7.0)))

        def faceon(v, run):
            w = dict(v, iota=0.0)
            hp, hc = lib.hphc(run, name, w, [lib.fr(v)])
            w2 = dict(v, iota=3.141592653589793)
            hp2, hc2 = lib.hphc(run, name, w2, [lib.fr(v)])
            return [("face-on hc", m.el(hc), m.cx(0.0, -1.0) * m.el(hp)), ("face-off hc", m.el(hc2), m.cx(0.0, 1.0) * m.el(hp2)),
                    ("same power", m.abs2(m.el(hp)), m.abs2(m.el(hp2)))]

        bx = lib.wbox(name)
        bx.pop("iota")
        ctx.equal("circular", faceon, bx)

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES}
