"""Limits and equivalent parametrisations."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "the untapered NRTidalv2 strain of undeformable bodies is the IMRPhenomD strain (and the tapered one is that times the taper, which is 1 below merger); the combined-tidal-parameter interface at the converted values gives the individual-deformability interface; IMRPhenomPv2 by chirp mass is IMRPhenomPv2 by component masses; decided by the solver over the whole parameter box"
TASK_NAMES = ["NRT0", "NRTL0", "NRTL", "TF2", "NRTT", "P"]
OUTSIDE = "inputs outside the listed boxes; the isolated frequency M f = 0.2; float rounding (values are reals)"


def bbh(name):
    """No deformability: the binary black hole strain."""
    def task(ctx):
        def full(v, run):
            p = lib.params("D", v, chi1=0.0, chi2=0.0)
            q = p[:4] + [0.0, 0.0] + p[4:]
            a = run(lib.gen(name), [lib.fr(v)], q, lib.fr(v, "y"))
            b = run(lib.gen("D"), [lib.fr(v)], p, lib.fr(v, "y"))
            return [("hp", m.el(a[0]), m.el(b[0])), ("hc", m.el(a[1]), m.el(b[1]))]

        def modulus(v, run):
            p = lib.params("D", v)
            q = p[:4] + [0.0, 0.0] + p[4:]
            a = m.el(run(lib.gen(name, False), [lib.fr(v)], q, lib.fr(v, "y")))
            b = m.el(run(lib.gen("D", False), [lib.fr(v)], p, lib.fr(v, "y")))
            return [("|h0|^2", m.abs2(a) * 1e40, m.abs2(b) * 1e40)]

        bx = lib.wbox("D")
        if not name.endswith("0"):
            # the merger frequency of undeformed bodies is 0.3586/(2 pi sqrt(q))
            bx.update(x=(2e-5, 0.012), d=(0.0, 0.8))
        b1 = {k: z for k, z in bx.items() if k not in ("chi1", "chi2")}
        ctx.equal("black-hole limit", full, b1)
        b2 = {k: z for k, z in bx.items() if k != "iota"}
        ctx.equal("black-hole limit, modulus", modulus, b2)
        ctx.note("with spins only the modulus is compared: the published octupole fit does not take the black-hole value exactly (1.003136), see C23")

    return task


def tildes(name, other):
    """Both forms of the tidal parameters."""
    def task(ctx):
        def prop(v, run):
            from ripplegw import lambdas_to_lambda_tildes

            p = lib.params(other, v)
            mm = [v["M"] * (1.0 + v["d"]) / 2.0, v["M"] * (1.0 - v["d"]) / 2.0]
            lt = run(lambdas_to_lambda_tildes, [v["l1"], v["l2"]] + mm)
            q = p[:4] + [m.el(lt[0]), m.el(lt[1])] + p[6:]
            if name.startswith("TF2"):
                a = run(lib.gen(name, True, lib.TF2_FREF), [lib.fr(v)], q)
                b = run(lib.gen(other, True, lib.TF2_FREF), [lib.fr(v)], p)
            else:
                a = run(lib.gen(name), [lib.fr(v)], q, lib.fr(v, "y"))
                b = run(lib.gen(other), [lib.fr(v)], p, lib.fr(v, "y"))
            return [("hp", m.el(a[0]), m.el(b[0])), ("hc", m.el(a[1]), m.el(b[1]))]

        bx = lib.wbox(other)
        bx["l1"] = bx["l2"] = (1.0, 5000.0)
        bx["d"] = (0.0, 0.3)
        ctx.equal("combined and individual tidal parameters", prop, bx)

    return task


def masses(ctx):
    def prop(v, run):
        m1 = v["M"] * (1.0 + v["d"]) / 2.0
        m2 = v["M"] * (1.0 - v["d"]) / 2.0
        eta = 0.25 * (1.0 - v["d"] * v["d"])
        p = lib.pparams(v, m1=m1, m2=m2)
        q = [v["M"] * m.P(eta, lib.Fr(3, 5)), eta] + p[2:]
        a = run(lib.gen("P"), [v["f"]], p, v["fref"])
        b = run(lib.gen("PMc"), [v["f"]], q, v["fref"])
        return [("hp", m.el(b[0]), m.el(a[0])), ("hc", m.el(b[1]), m.el(a[1]))]

    bx = {k: x for k, x in lib.PBOX.items() if k not in ("m1", "m2")}
    bx.update(M=(1.0, 1000.0), d=(0.0, 0.9))
    ctx.equal("component masses and chirp mass", prop, bx)


TASKS = {"NRT0": bbh("NRT0"), "NRTL0": bbh("NRTL0"), "NRTL": bbh("NRTL"), "NRTT": tildes("NRT0", "NRTL0"), "TF2": tildes("TF2", "TF2L"), "P": masses}
