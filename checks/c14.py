"""Reference frequency: anchors the phase, changes nothing else."""
import math
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "changing f_ref multiplies h by a unit-modulus factor that is the same at every frequency; at f = f_ref the phase is the model's constant plus 2 phic - 2 pi f_ref tc (TaylorF2, PhenomD, XAS); decided by the solver over the whole parameter box"
TASK_NAMES = ["TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0"]
CONST = {"TF2": -0.75 * math.pi, "TF2L": -0.75 * math.pi, "D": 0.0, "XAS": -0.75 * math.pi}


def aligned(name):
    def task(ctx):
        tf = name.startswith("TF2")

        def ratio(r1, r2):
            def prop(v, run):
                f1, f2 = lib.fr(v), lib.fr(v, "x2")
                a = lib.h0(run, name, v, [f1, f2], fref=r1 if tf else lib.fr(v, "y"))
                b = lib.h0(run, name, v, [f1, f2], fref=r2 if tf else lib.fr(v, "y2"))
                a1, a2, b1, b2 = m.el(a, 0), m.el(a, 1), m.el(b, 0), m.el(b, 1)
                return [("modulus", m.abs2(a1), m.abs2(b1)), ("same factor", a1 * b2, b1 * a2)]

            return prop

        bx = lib.wbox(name, iota=False)
        bx["x2"] = bx["x"]
        if not tf:
            bx["y2"] = bx["y"]
            ctx.equal("overall-phase", ratio(0, 0), bx)
        else:
            for r1, r2 in ((20.0, 75.0), (75.0, 300.0)):
                ctx.equal(f"overall-phase-{r1:g}-{r2:g}", ratio(r1, r2), bx)
            # f_ref = 0 switches the anchoring off
            ctx.equal("no-reference", ratio(0.0, 20.0), bx)
            ctx.note("TaylorF2 takes f_ref as a concrete number: 0, 20, 75 and 300 Hz are covered")
        if name in CONST:
            for r in [20.0, 75.0, 300.0] if tf else [None]:
                def anchor(v, run):
                    fr = r if tf else lib.fr(v, "y")
                    h = m.el(lib.h0(run, name, v, [fr], fref=fr, tc=0.0, phic=0.0))
                    # real after removing the model's constant phase (tc and
                    # phic enter as C12 and C13 say)
                    z = h * m.cis(-CONST[name])
                    return [("anchored", z, m.conj(z))]

                b2 = lib.wbox(name, iota=False)
                for q in ("x", "tc", "phic"):
                    b2.pop(q)
                ctx.equal("anchor" + (f"-{r:g}" if tf else ""), anchor, b2, vtol=1e-4)

    return task


TASKS = {n: aligned(n) for n in TASK_NAMES}
