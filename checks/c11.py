"""Distance: every polarization scales as 1/D."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "h(k D) k == h(D) for both polarizations, every generator, decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0", "P", "PMc"]


def aligned(name):
    def task(ctx):
        def prop(v, run):
            a = lib.hphc(run, name, v, [lib.fr(v)])
            b = lib.hphc(run, name, v, [lib.fr(v)], D=v["D"] * v["k"])
            return [("hp", m.el(b[0]) * v["k"], m.el(a[0])), ("hc", m.el(b[1]) * v["k"], m.el(a[1]))]

        ctx.equal("inverse-distance", prop, lib.wbox(name, "k"))

        def prop0(v, run):
            a = lib.h0(run, name, v, [lib.fr(v)])
            b = lib.h0(run, name, v, [lib.fr(v)], D=v["D"] * v["k"])
            return [("h0", m.el(b) * v["k"], m.el(a))]

        ctx.equal("inverse-distance-h0", prop0, lib.wbox(name, "k", iota=False))

    return task


def precessing(name):
    def task(ctx):
        def prop(v, run):
            w = dict(v)
            g = lib.gen(name)
            a = run(g, [v["f"]], lib.pparams(w), v["fref"])
            b = run(g, [v["f"]], lib.pparams(w, D=v["D"] * v["k"]), v["fref"])
            return [("hp", m.el(b[0]) * v["k"], m.el(a[0])), ("hc", m.el(b[1]) * v["k"], m.el(a[1]))]

        bx = dict(lib.PBOX, k=lib.BOX["k"])
        if name == "PMc":
            bx["m2"] = (0.05, 0.2499)
        ctx.equal("inverse-distance", prop, bx, assume=(lambda v: [m.le(v["m2"], v["m1"])]) if name == "P" else None)

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES[:8]}
TASKS.update({n: precessing(n) for n in ("P", "PMc")})
