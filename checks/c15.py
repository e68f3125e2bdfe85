"""Mass scaling: only M f enters, and the strain scales as M^2 / D."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "h(f/s; s M, s tc, f_ref/s) = s^2 h(f; M, tc, f_ref) for both polarizations and every generator, decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0", "P"]


def aligned(name):
    def task(ctx):
        tf = name.startswith("TF2")
        for s in (2.0, 5.0) if tf else (None,):
            def prop(v, run):
                k = s if tf else v["s"]
                a = lib.hphc(run, name, v, [lib.fr(v)])
                w = dict(v, tc=v["tc"] * k)
                b = lib.hphc(run, name, w, [lib.fr(v) / k], scale=k, fref=lib.TF2_FREF / k if tf else lib.fr(v, "y") / k)
                return [("hp", m.el(b[0]), m.el(a[0]) * (k * k)), ("hc", m.el(b[1]), m.el(a[1]) * (k * k))]

            bx = lib.wbox(name)
            if not tf:
                bx["s"] = (0.1, 10.0)
            ctx.equal("mass-scaling" + (f"-{s:g}" if tf else ""), prop, bx)

    return task


def precessing(ctx):
    def prop(v, run):
        g = lib.gen("P")
        k = v["s"]
        a = run(g, [v["f"]], lib.pparams(v), v["fref"])
        b = run(g, [v["f"] / k], lib.pparams(v, m1=v["m1"] * k, m2=v["m2"] * k, tc=v["tc"] * k), v["fref"] / k)
        return [("hp", m.el(b[0]), m.el(a[0]) * (k * k)), ("hc", m.el(b[1]), m.el(a[1]) * (k * k))]

    # the aligned-spin guard compares with an absolute 1e-15: stay away from it
    def assume(v):
        jx = v["m1"] * v["m1"] * v["s1x"] + v["m2"] * v["m2"] * v["s2x"]
        return [m.le(v["m2"], v["m1"]), m.lt(1e-9, m.absv(jx))]

    ctx.equal("mass-scaling", prop, dict(lib.PBOX, s=(0.1, 10.0)), assume=assume)
    ctx.note("IMRPhenomPv2 mass scaling: in-plane total spin component |J_x| > 1e-9 Msun^2")


TASKS = {n: aligned(n) for n in TASK_NAMES[:8]}
TASKS["P"] = precessing
