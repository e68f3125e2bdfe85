"""Effective spin, ISCO frequency and physical constants."""
import math
from vf import m
from checks.lib import Fr

LEVEL = "model_checking"
EXPLAIN = "chi_eff is the mass-weighted mean of the spins (bounded by them, invariant under exchange and mass scaling), f_ISCO = c^3/(6^(3/2) pi G m), and the constants agree with one another and with their CODATA/IAU values"
TASK_NAMES = ["chi_eff", "f_isco", "constants"]


def chi_eff(ctx):
    import ripplegw as r
    bx = {"m1": (1e-3, 1e4), "m2": (1e-3, 1e4), "c1": (-1.0, 1.0), "c2": (-1.0, 1.0), "s": (1e-3, 1e3)}

    def f(v, run):
        m1, m2, c1, c2, s = v["m1"], v["m2"], v["c1"], v["c2"], v["s"]
        a = m.el(run(r.get_chi_eff, [m1, m2, c1, c2]))
        b = m.el(run(r.get_chi_eff, [m2, m1, c2, c1]))
        c = m.el(run(r.get_chi_eff, [s * m1, s * m2, c1, c2]))
        return [("formula", a, (m1 * c1 + m2 * c2) / (m1 + m2)), ("exchange", a, b), ("scaling", a, c)]

    def g(v, run):
        a = m.el(run(r.get_chi_eff, [v["m1"], v["m2"], v["c1"], v["c2"]]))
        return [("<= 1", a, 1.0 + 0.0 * v["c1"]), (">= -1", -1.0 + 0.0 * v["c1"], a)]

    def h(v, run):
        a = m.el(run(r.get_chi_eff, [v["m1"], v["m2"], v["c1"], v["c2"]]))
        return [("<= max", a, v["c2"]), (">= min", v["c1"], a)]

    ctx.equal("formula", f, bx, atol=1e-3)
    b2 = {k: bx[k] for k in ("m1", "m2", "c1", "c2")}
    ctx.leq("range", g, b2)
    ctx.leq("between", h, b2, assume=lambda v: [m.le(v["c1"], v["c2"])])


def f_isco(ctx):
    import ripplegw as r

    def f(v, run):
        a = m.el(run(r.get_f_isco, v["m"]))
        b = m.el(run(r.get_f_isco, v["m"] * v["s"]))
        C, G = 299792458.0, 6.67430e-11
        return [("formula", a * v["m"], C ** 3 / (6.0 ** 1.5 * math.pi * G) + 0.0 * v["m"]), ("scaling", b * v["s"], a)]

    def g(v, run):
        # one solar mass: 4397.2 Hz (LAL: 1/(6^1.5 pi M_t))
        a = m.el(run(r.get_f_isco, v["M"] * 1.988409870698051e30))
        return [("LAL", a * v["M"] * (6.0 ** 1.5 * math.pi * 4.925490947641267e-06), 1.0 + 0.0 * v["M"])]

    ctx.equal("formula", f, {"m": (1e20, 1e40), "s": (1e-3, 1e3)})
    ctx.equal("solar", g, {"M": (1e-3, 1e6)}, tol=1e-7, vtol=1e-7)


def constants(ctx):
    from ripplegw import constants as c
    want = {"EulerGamma": 0.577215664901532860606512090082402431, "MSUN": 1.988409870698050731911960804878414216e30,
            "G": 6.67430e-11, "C": 299792458.0, "PI": math.pi, "gt": 4.925490947641266978197229498498379006e-06,
            "TWO_PI": 2.0 * math.pi, "MRSUN": 1.476625038050124729627979840144936351e3, "clightGpc": 299792458.0 / 3.085677581491367278913937957796471611e25,
            "m_per_Mpc": 3.085677581491367278913937957796471611e22}
    for k, x in want.items():
        y = getattr(c, k, None)
        ctx.fact(k, y is not None and abs(float(y) / x - 1) < (1e-6 if k == "clightGpc" else 1e-7), f"{k} = {y}, CODATA/IAU {x}")
    if hasattr(c, "MRSUN"):
        ctx.fact("MRSUN", abs(float(c.MRSUN) / (want["gt"] * want["C"]) - 1) < 1e-7, f"MRSUN = {c.MRSUN}")
    if all(hasattr(c, k) for k in ("gt", "G", "MSUN", "C")):
        ctx.fact("gt = G MSUN / C^3", abs(float(c.gt) * c.C ** 3 / (c.G * c.MSUN) - 1) < 1e-9, c.gt)


TASKS = {"chi_eff": chi_eff, "f_isco": f_isco, "constants": constants}
