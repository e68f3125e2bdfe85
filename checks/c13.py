"""Coalescence phase: a shift a of phic multiplies the strain by exp(2 i a)."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "h(phic+a) = h(phic) exp(2 i a) for both polarizations of every aligned-spin generator, decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0"]


def aligned(name):
    def task(ctx):
        def prop(v, run):
            a = lib.hphc(run, name, v, [lib.fr(v)])
            b = lib.hphc(run, name, v, [lib.fr(v)], phic=v["phic"] + v["a"])
            s = m.cis(2.0 * v["a"])
            return [("hp", m.el(b[0]), m.el(a[0]) * s), ("hc", m.el(b[1]), m.el(a[1]) * s)]

        ctx.equal("phase-shift", prop, lib.wbox(name, "a"))

        def prop0(v, run):
            a = lib.h0(run, name, v, [lib.fr(v)])
            b = lib.h0(run, name, v, [lib.fr(v)], phic=v["phic"] + v["a"])
            return [("h0", m.el(b), m.el(a) * m.cis(2.0 * v["a"]))]

        ctx.equal("phase-shift-h0", prop0, lib.wbox(name, "a", iota=False))

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES}
