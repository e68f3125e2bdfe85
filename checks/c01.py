"""Mass parameter conversions."""
from vf import m
from checks import lib
from checks.lib import Fr

LEVEL = "model_checking"
EXPLAIN = "Mc_eta_to_ms and ms_to_Mc_eta satisfy the defining formulae, invert each other, and return ordered positive masses; decided by the solver for all masses in the box"
TASK_NAMES = ["roundtrip", "ordering", "formula"]
BX = {"M": (1e-3, 1e4), "d": (0.0, 0.9999)}
OUTSIDE = "mass ratios beyond 1:20000 and total masses outside [1e-3, 1e4]; float64 rounding (equality is up to 1e-9, replays to 1e-6)"


def ms(v):
    return v["M"] * (1.0 + v["d"]) * 0.5, v["M"] * (1.0 - v["d"]) * 0.5


def mceta(v):
    eta = 0.25 * (1.0 - v["d"] * v["d"])
    return v["M"], eta


def roundtrip(ctx):
    import ripplegw as r

    def a(v, run):
        m1, m2 = ms(v)
        o = run(r.Mc_eta_to_ms, run(r.ms_to_Mc_eta, [m1, m2]))
        s = run(r.Mc_eta_to_ms, run(r.ms_to_Mc_eta, [m2, m1]))
        return [("m1", m.el(o[0]), m1), ("m2", m.el(o[1]), m2), ("swapped m1", m.el(s[0]), m1), ("swapped m2", m.el(s[1]), m2)]

    def b(v, run):
        Mc, eta = mceta(v)
        o = run(r.ms_to_Mc_eta, run(r.Mc_eta_to_ms, [Mc, eta]))
        return [("Mc", m.el(o[0]), Mc), ("eta", m.el(o[1]), eta)]

    ctx.equal("masses", a, BX)
    ctx.equal("Mc-eta", b, BX)


def ordering(ctx):
    import ripplegw as r

    def a(v, run):
        o = run(r.Mc_eta_to_ms, [v["Mc"], v["eta"]])
        m1, m2 = m.el(o[0]), m.el(o[1])
        return [("m1 >= m2", m2, m1), ("m2 >= 0", 0.0 * m2, m2)]

    def b(v, run):
        o = run(r.ms_to_Mc_eta, [v["m1"], v["m2"]])
        return [("eta <= 1/4", m.el(o[1]), 0.25 + 0.0 * v["m1"])]

    def c(v, run):
        o = run(r.ms_to_Mc_eta, [v["m1"], v["m2"]])
        return [("eta >= 0", 0.0 * v["m1"], m.el(o[1])), ("Mc >= 0", 0.0 * v["m1"], m.el(o[0]))]

    ctx.leq("ordered", a, {"Mc": (1e-3, 1e4), "eta": (1e-4, 0.25)})
    ctx.leq("eta-max", b, {"m1": (1e-3, 1e4), "m2": (1e-3, 1e4)}, slack=0.0)
    ctx.leq("positive", c, {"m1": (1e-3, 1e4), "m2": (1e-3, 1e4)})


def formula(ctx):
    import ripplegw as r

    def a(v, run):
        m1, m2 = v["m1"], v["m2"]
        o = run(r.ms_to_Mc_eta, [m1, m2])
        M = m1 + m2
        return [("Mc", m.el(o[0]), m.P(m1 * m2, Fr(3, 5)) * m.P(M, Fr(-1, 5))), ("eta", m.el(o[1]), m1 * m2 / (M * M))]

    def b(v, run):
        Mc, eta = v["M"], 0.25 * (1.0 - v["d"] * v["d"])
        o = run(r.Mc_eta_to_ms, [Mc, eta])
        M = Mc * m.P(eta, Fr(-3, 5))
        m1, m2 = m.el(o[0]), m.el(o[1])
        return [("total mass", m1 + m2, M), ("product", m1 * m2, eta * M * M),
                ("difference", m1 - m2, M * v["d"])]

    ctx.equal("ms_to_Mc_eta", a, {"m1": (1e-3, 1e4), "m2": (1e-3, 1e4)})
    ctx.equal("Mc_eta_to_ms", b, dict(BX, d=(0.0, 0.9999)), atol=1e-9)


TASKS = {"roundtrip": roundtrip, "ordering": ordering, "formula": formula}
