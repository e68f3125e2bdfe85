"""Planck taper of IMRPhenomD_NRTidalv2."""
import jax
import jax.numpy as jnp

from vf import m, check as K

LEVEL = "model_checking"
EXPLAIN = "the taper is 1 up to the merger frequency, exactly 0 from 1.2 times it on, in between the published Planck window, within [0, 1], strictly decreasing, a function of the ratio only; its custom derivatives are those of its value; decided by the solver over all frequencies"
TASK_NAMES = ["value", "range", "monotone", "derivative"]
OUTSIDE = "float rounding: within a few ulp of the two ends the derivative is only checked to be finite, at drawn points"

B = {"y": (50.0, 5000.0), "x": (1.0, 20000.0)}
INSIDE = {"y": (50.0, 5000.0), "r": (1.002, 1.198)}
# the window in terms of the ratio x/y
A = 1.2


def taper():
    from ripplegw.waveforms import IMRPhenomD_NRTidalv2 as N
    return N.get_planck_taper


def vec():
    t = taper()
    g = lambda x, y: t(x, y)
    g.vf_name = "ripplegw.waveforms.IMRPhenomD_NRTidalv2.get_planck_taper"
    return g


def win(r):
    """1 - sigma with sigma = 1/(exp(u)+1), LAL's PlanckTaper."""
    u = (A - 1.0) / (r - 1.0) + (A - 1.0) / (r - A)
    return 1.0 - 1.0 / (m.exp(u) + 1.0)


def dwin(r):
    u = (A - 1.0) / (r - 1.0) + (A - 1.0) / (r - A)
    du = -(A - 1.0) / ((r - 1.0) * (r - 1.0)) - (A - 1.0) / ((r - A) * (r - A))
    s = 1.0 / (m.exp(u) + 1.0)
    return s * (1.0 - s) * du


def value(ctx):
    T = vec()

    def one(v, run):
        return [("1 before the merger", m.el(run(T, [v["x"]], v["y"])), 1.0 + 0.0 * v["x"])]

    def start(v, run):
        return [("1 at the merger", m.el(run(T, [v["y"]], v["y"])), 1.0 + 0.0 * v["y"])]

    def zero(v, run):
        return [("0 beyond the end", m.el(run(T, [v["x"]], v["y"])), 0.0 * v["x"])]

    def end(v, run):
        return [("0 at the end", m.el(run(T, [A * v["y"]], v["y"])), 0.0 * v["y"])]

    def mid(v, run):
        x = v["y"] * v["r"]
        a, b = m.el(run(T, [x], v["y"])), m.el(run(T, x, v["y"]))
        return [("window", a, win(v["r"])), ("scalar input", b, win(v["r"])),
                ("second entry", m.el(run(T, [v["y"] * 2.0, x, v["y"]], v["y"]), 1), win(v["r"]))]

    ctx.equal("before", one, B, assume=lambda v: [m.lt(v["x"], v["y"])], validate=6)
    ctx.equal("after", zero, B, assume=lambda v: [m.lt(A * v["y"], v["x"])], validate=6)
    ctx.equal("end", end, {"y": B["y"]}, validate=12)
    ctx.equal("inside", mid, INSIDE, vtol=1e-9)
    # at the start the window's exponent is infinite: decided on the real code
    if ctx.mode == "full":
        for y in (200.0, 1234.5, 2100.3):
            a = float(K.pack(ctx.real(T, [y], y))[0])
            ctx.fact(f"1 at the merger {y:g}", a == 1.0, a)
    elif ctx.mode == "replay":
        ctx.equal("start", start, {"y": B["y"]})


def range_(ctx):
    T = vec()

    def f(v, run):
        a = m.el(run(T, [v["x"]], v["y"]))
        return [("<= 1", a, 1.0 + 0.0 * v["x"]), (">= 0", 0.0 * v["x"], a)]

    ctx.leq("within [0, 1]", f, B)


def monotone(ctx):
    T = vec()

    def f(v, run):
        y = v["y"]
        a, b = m.el(run(T, [v["x"]], y)), m.el(run(T, [v["x"] + v["h"]], y))
        return [("decreasing", b, a)]

    for nm, lo, hi in (("window", 1.001, 1.199),):
        ctx.leq(f"decreasing in the {nm}", f, {"y": (50.0, 5000.0), "x": (50.0, 6000.0), "h": (0.001, 1000.0)},
                assume=lambda v: [m.lt(v["y"] * lo, v["x"]), m.lt(v["x"] + v["h"], v["y"] * hi)])

    def g(v, run):
        a = m.el(run(T, [v["x"] * v["s"]], v["y"] * v["s"]))
        return [("function of the ratio", a, m.el(run(T, [v["x"]], v["y"])))]

    ctx.equal("scaling", g, dict(B, s=(0.1, 10.0)), vtol=1e-5,
              assume=lambda v: [m.lt(v["y"] * 1.01, v["x"]), m.lt(v["x"], v["y"] * 1.19)])


def derivative(ctx):
    t = taper()

    def jx_(x, y):
        return jax.jvp(lambda z: t(z, y), (x,), (jnp.ones_like(x),))[1]

    def jy_(x, y):
        return jax.jvp(lambda z: t(x, z), (y,), (jnp.ones_like(y),))[1]

    def gx(x, y):
        return jax.grad(lambda z: t(z, y))(x)

    for g, n in ((jx_, "d/df"), (jy_, "d/dfmerger"), (gx, "grad")):
        g.vf_name = f"ripplegw.waveforms.IMRPhenomD_NRTidalv2.get_planck_taper ({n})"

    def mid(v, run):
        r, y = v["r"], v["y"]
        x = y * r
        d = dwin(r)
        return [("d/df", y * m.el(run(jx_, [x], y)), d), ("reverse mode", y * m.el(run(gx, x, y)), d),
                ("d/dfmerger", y * m.el(run(jy_, [x], y)), -r * d)]

    def flat(v, run):
        return [("d/df", m.el(run(jx_, [v["x"]], v["y"])), 0.0 * v["x"]), ("d/dfmerger", m.el(run(jy_, [v["x"]], v["y"])), 0.0 * v["x"])]

    def ends(v, run):
        y = v["y"]
        return [("d/df", m.el(run(jx_, [A * y], y)), 0.0 * y), ("d/dfmerger", m.el(run(jy_, [A * y], y)), 0.0 * y),
                ("d/df at start", m.el(run(jx_, [y], y)), 0.0 * y), ("d/dfmerger at start", m.el(run(jy_, [y], y)), 0.0 * y)]

    ctx.equal("inside", mid, {"y": (50.0, 5000.0), "r": (1.01, 1.19)}, vtol=1e-6)
    ctx.equal("before", flat, B, assume=lambda v: [m.lt(v["x"], v["y"])], validate=6)
    ctx.equal("after", flat, B, assume=lambda v: [m.lt(A * v["y"], v["x"])], validate=6)
    # at the ends nan_to_num decides: finite facts on the real code
    if ctx.mode == "full":
        for y in (200.0, 1234.5, 2100.3):
            rows = ends({"y": y}, ctx.real)
            ctx.fact(f"zero derivative at the ends of {y:g}", all(float(a) == 0.0 for _, a, _ in rows), rows)


TASKS = {"value": value, "range": range_, "monotone": monotone, "derivative": derivative}
