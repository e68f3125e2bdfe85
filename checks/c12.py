"""Coalescence time: exp(-2 pi i f tc) on every polarization of every model."""
import math
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "h(f; tc+a) = h(f; tc) exp(-2 pi i f a) for both polarizations and every generator, decided by the solver over the whole parameter box; in particular |h| does not depend on tc"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0", "P", "PMc"]


def aligned(name):
    def task(ctx):
        def prop(v, run):
            a = lib.hphc(run, name, v, [lib.fr(v)])
            b = lib.hphc(run, name, v, [lib.fr(v)], tc=v["tc"] + v["a"])
            s = m.cis(-2.0 * math.pi * lib.fr(v) * v["a"])
            return [("hp", m.el(b[0]), m.el(a[0]) * s), ("hc", m.el(b[1]), m.el(a[1]) * s)]

        ctx.equal("time-shift", prop, lib.wbox(name, "a"))

        def prop0(v, run):
            a = lib.h0(run, name, v, [lib.fr(v)])
            b = lib.h0(run, name, v, [lib.fr(v)], tc=v["tc"] + v["a"])
            return [("h0", m.el(b), m.el(a) * m.cis(-2.0 * math.pi * lib.fr(v) * v["a"]))]

        ctx.equal("time-shift-h0", prop0, lib.wbox(name, "a", iota=False))
        ctx.note("claimed for M f <= 0.1999; the phenomenological models end at M f = 0.2")

    return task


def precessing(name):
    def task(ctx):
        def prop(v, run):
            g = lib.gen(name)
            a = run(g, [v["f"]], lib.pparams(v), v["fref"])
            b = run(g, [v["f"]], lib.pparams(v, tc=v["tc"] + v["a"]), v["fref"])
            s = m.cis(-2.0 * math.pi * v["f"] * v["a"])
            return [("hp", m.el(b[0]), m.el(a[0]) * s), ("hc", m.el(b[1]), m.el(a[1]) * s)]

        bx = dict(lib.PBOX, a=lib.BOX["a"])
        if name == "PMc":
            bx["m2"] = (0.05, 0.2499)
        ctx.equal("time-shift", prop, bx, assume=(lambda v: [m.le(v["m2"], v["m1"])]) if name == "P" else None)

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES[:8]}
TASKS.update({n: precessing(n) for n in ("P", "PMc")})
