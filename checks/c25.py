"""SineGaussian burst."""
import math
from vf import m

LEVEL = "model_checking"
EXPLAIN = "hp, hc equal the published sine-Gaussian (LALInference burst routines) at every time and parameter; hrss enters linearly, frequency and time scale together, phase and time reversal act as the formula says, eccentricity 1 and 0 are linear and circular; decided by the solver"
TASK_NAMES = ["formula", "symmetries", "ellipse"]
OUTSIDE = "arguments of the Gaussian beyond exp(-200); float rounding"

BX = {"Q": (1.0, 50.0), "f0": (10.0, 2000.0), "hrss": (1e-25, 1e3), "phase": (-7.0, 7.0), "e": (0.0, 0.999), "t": (-0.2, 0.2)}


def gen():
    from ripplegw.waveforms import SineGaussian as S
    g = lambda t, p: S.gen_SineGaussian_hphc(t, p)
    g.vf_name = "ripplegw.waveforms.SineGaussian.gen_SineGaussian_hphc"
    return g


def ok(v):
    """keep the Gaussian above underflow: (2 pi f0 t)^2 <= 400 Q^2"""
    x = 2.0 * math.pi * v["f0"] * v["t"]
    return [m.le(x, 20.0 * v["Q"]), m.le(-x, 20.0 * v["Q"])]


def sampler(box, rng, K):
    from vf import prove
    env = prove.draw(box, rng, K)
    env["t"] = env["t"] / 0.2 * (env["Q"] / env["f0"]) * 1.0
    env["t"] = env["t"].clip(box["t"][0], box["t"][1]) if hasattr(env["t"], "clip") else env["t"]
    return env


def P(v, **o):
    w = dict(v, **o)
    return [w["Q"], w["f0"], w["hrss"], w["phase"], w["e"]]


def spec(v):
    Q, f0, ph, e = v["Q"], v["f0"], v["phase"], v["e"]
    a = 1.0 / m.sqrt(2.0 - e * e)
    b = m.sqrt(1.0 - e * e) * a
    n = Q / (4.0 * f0 * math.sqrt(math.pi))
    g = m.exp(-(Q * Q))
    C, S = n * (1.0 + g), n * (1.0 - g)
    c, s = m.cos(ph), m.sin(ph)
    hp = v["hrss"] * a / m.sqrt(C * c * c + S * s * s)
    hx = v["hrss"] * b / m.sqrt(C * s * s + S * c * c)
    x = 2.0 * math.pi * f0 * v["t"]
    w = m.exp(-(x * x) / (2.0 * Q * Q))
    return hp * w * m.cos(x - ph), hx * w * m.sin(x - ph)


def formula(ctx):
    G = gen()

    def f(v, run):
        hp, hc = run(G, [v["t"]], P(v))
        p, c = spec(v)
        return [("hp", m.el(hp), p), ("hc", m.el(hc), c)]

    def g(v, run):
        a = run(G, [0.3 * v["t"], v["t"], -v["t"]], P(v))
        b = run(G, [v["t"]], P(v))
        return [("hp", m.el(a[0], 1), m.el(b[0])), ("hc", m.el(a[1], 1), m.el(b[1]))]

    ctx.equal("published", f, BX, assume=ok, sampler=sampler)
    ctx.equal("element-wise", g, BX, assume=ok, sampler=sampler)


def symmetries(ctx):
    G = gen()

    def f(v, run):
        a = run(G, [v["t"]], P(v))
        k, s = v["k"], v["s"]
        b = run(G, [v["t"]], P(v, hrss=v["hrss"] * k))
        c = run(G, [v["t"] / s], P(v, f0=v["f0"] * s))
        r = m.sqrt(s)
        d = run(G, [-v["t"]], P(v, phase=-v["phase"]))
        h = run(G, [v["t"]], P(v, phase=v["phase"] + math.pi))
        hp, hc = m.el(a[0]), m.el(a[1])
        return [("linear in hrss +", m.el(b[0]), k * hp), ("linear in hrss x", m.el(b[1]), k * hc),
                ("time scale +", m.el(c[0]), r * hp), ("time scale x", m.el(c[1]), r * hc),
                ("time reversal +", m.el(d[0]), hp), ("time reversal x", m.el(d[1]), -hc),
                ("half turn +", m.el(h[0]), -hp), ("half turn x", m.el(h[1]), -hc)]

    ctx.equal("symmetries", f, dict(BX, k=(1e-3, 1e3), s=(0.1, 10.0), phase=(-3.0, 3.0), t=(-0.02, 0.02)), assume=ok, sampler=sampler)


def ellipse(ctx):
    from ripplegw.waveforms import SineGaussian as S
    G = gen()

    def f(v, run):
        a, b = run(S.semi_major_minor_from_e, v["e"])
        a, b = m.el(a), m.el(b)
        return [("a^2 + b^2", a * a + b * b, 1.0 + 0.0 * v["e"]), ("b/a", b * b, a * a * (1.0 - v["e"] * v["e"]))]

    def lin(v, run):
        a = run(G, [v["t"]], P(v, e=1.0))
        return [("linear: no cross", m.el(a[1]), 0.0 * v["t"])]

    def circ(v, run):
        # circular burst at quarter phase: exchanging the roles of hp and hc
        a = run(G, [v["t"]], P(v, e=0.0))
        b = run(G, [v["t"]], P(v, e=0.0, phase=v["phase"] + 0.5 * math.pi))
        return [("quarter turn", m.el(b[0]), m.el(a[1])), ("quarter turn x", m.el(b[1]), -m.el(a[0]))]

    bx = {k: x for k, x in BX.items() if k != "e"}
    ctx.equal("axes", f, {"e": (0.0, 0.999)})
    ctx.equal("linear", lin, bx, assume=ok, sampler=sampler)
    ctx.equal("circular", circ, dict(bx, phase=(-3.0, 3.0)), assume=ok, sampler=sampler)


TASKS = {"formula": formula, "symmetries": symmetries, "ellipse": ellipse}
