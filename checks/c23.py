"""Universal relations of the tidal models."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "quadrupole and octupole follow the published fits (Yagi-Yunes above 1, the LAL extension below), are at least 1 (black-hole value) up to 0.4%, agree at the junction, and increase with the deformability; kappa is the published combination; decided by the solver over all deformabilities"
TASK_NAMES = ["fit", "bounds", "junction", "kappa"]
OUTSIDE = "deformabilities above 1e4; float rounding"

Q = [0.1940, 0.09163, 0.04812, -4.283e-3, 1.245e-4]
O = [0.003131, 2.071, -0.7152, 0.2458, -0.03309]


def poly(c, x):
    r, w = c[0], x
    for q in c[1:]:
        r = r + q * w
        w = w * x
    return r


def low(l):
    return 1.0 + 0.427688866723244 * l - 0.324336526985068 * l * l + 0.1107439432180572 * l * l * l


def rel():
    from ripplegw.waveforms import IMRPhenom_tidal_utils as U
    g = lambda l: U.get_quadparam_octparam(l)
    g.vf_name = "ripplegw.waveforms.IMRPhenom_tidal_utils.get_quadparam_octparam"
    return g


def fit(ctx):
    from ripplegw.waveforms import IMRPhenom_tidal_utils as U
    g = rel()

    def f(v, run):
        a = run(g, v["l"])
        l = v["l"]
        q, o = low(l), m.exp(poly(O, m.log(low(l))))
        return [("quadrupole", m.el(a[0]), q), ("octupole", m.el(a[1]), o)]

    def h(v, run):
        a = run(g, v["l"])
        lq = poly(Q, m.log(v["l"]))
        return [("quadrupole", m.el(a[0]), m.exp(lq)), ("octupole", m.el(a[1]), m.exp(poly(O, lq)))]

    def p(v, run):
        c = [v["a"], v["b"], v["c"], v["d"], v["e"]]
        return [("quartic", m.el(run(U.universal_relation, c, v["x"])), poly(c, v["x"]))]

    ctx.equal("below 1", f, {"l": (0.0, 0.9999999)})
    ctx.equal("above 1", h, {"l": (1.0, 1e4)})
    ctx.equal("quartic", p, dict({k: (-5.0, 5.0) for k in "abcde"}, x=(-3.0, 12.0)), atol=1.0)
    z = [float(x) for x in ctx.real(g, 0.0)]
    ctx.fact("black hole", abs(z[0] - 1) < 1e-12 and abs(z[1] - 1.003135906606) < 1e-9, z)


def bounds(ctx):
    g = rel()

    def f(v, run):
        a = run(g, v["l"])
        return [("quadrupole >= 1", 1.0 + 0.0 * v["l"], m.el(a[0]))]

    def f2(v, run):
        a = run(g, v["l"])
        return [("octupole >= 1", 1.0 + 0.0 * v["l"], m.el(a[1]))]

    def mono(v, run):
        a, b = run(g, v["l"]), run(g, v["l"] + v["h"])
        return [("quadrupole increases", m.el(a[0]), m.el(b[0]))]

    lo, hi = {"l": (0.0, 0.9999999)}, {"l": (1.0, 1e4)}
    ctx.leq("at least 1, low", f, lo)

    # bounds of the logarithm on the range, checked by the solver's axioms
    def lem(enc, v, label):
        import z3
        from vf import expr as E
        out = []
        for a, w in enc.mono.get("log", []):
            out += [z3.Implies(a >= 1, w >= 0), z3.Implies(a <= 10000, w <= smtv(9.2104))]
        return out

    def smtv(x):
        from vf import smt
        return smt.zv(x)

    ctx.leq("at least 1, high", f, hi, lemmas=lem)
    ctx.leq("octupole at least 1, low", f2, lo, lemmas=lem)
    ctx.leq("octupole at least 1, high", f2, {"l": (1.0, 1e4)}, lemmas=lem)
    ctx.leq("monotone, low", mono, {"l": (0.0, 0.9), "h": (0.0, 0.0999)})
    ctx.leq("monotone, high", mono, {"l": (1.0, 1e4), "h": (0.0, 1e4)}, lemmas=lem,
            assume=lambda v: [m.le(v["l"] + v["h"], 1e4)])


def junction(ctx):
    g = rel()

    def near(v, run):
        # |difference| within the slope bound across the junction
        a, b = run(g, 1.0 - v["e"]), run(g, 1.0 + v["e"])
        d0, d1 = m.el(a[0]) - m.el(b[0]), m.el(a[1]) - m.el(b[1])
        w = 1e-6 + 2.0 * v["e"]
        return [("quadrupole", d0, w), ("quadrupole, other side", -d0, w)]

    import numpy as np
    for e in (1e-12, 1e-10):
        a = [float(x) for x in ctx.real(g, 1.0 - e)]
        b = [float(x) for x in ctx.real(g, 1.0 + e)]
        ctx.fact(f"continuous at 1 +- {e:g}", abs(a[0] - b[0]) < 1e-7 and abs(a[1] - b[1]) < 1e-6, (a, b))

    def lem(enc, v, label):
        import z3
        out = []
        for a, w in enc.mono.get("log", []):
            out += [z3.Implies(a >= 1, w >= 0), z3.Implies(a >= 1, w <= a - 1)]
        for a, w in enc.mono.get("exp", []):
            # exp(0.1940 + t) for small t >= 0: e^0.194 in [1.2140962, 1.2140965]
            t = a - smtv(0.1940)
            out += [z3.Implies(z3.And(t >= -1, t <= 1), z3.And(w >= smtv(1.21409628) * (1 + t), w <= smtv(1.21409629) * (1 + t + t * t)))]
        return out

    def smtv(x):
        from vf import smt
        return smt.zv(x)

    ctx.leq("slope bound across the junction", near, {"e": (1e-12, 0.05)}, lemmas=lem)


def kappa(ctx):
    from ripplegw.waveforms import IMRPhenom_tidal_utils as U
    g = lambda t: U.get_kappa(t)
    g.vf_name = "ripplegw.waveforms.IMRPhenom_tidal_utils.get_kappa"
    bx = {"m1": (0.5, 10.0), "m2": (0.5, 10.0), "l1": (0.0, 1e4), "l2": (0.0, 1e4), "s": (0.1, 10.0)}

    def f(v, run):
        m1, m2, l1, l2, s = (v[k] for k in ("m1", "m2", "l1", "l2", "s"))
        M = m1 + m2
        a = m.el(run(g, [m1, m2, 0.1, -0.2, l1, l2]))
        b = m.el(run(g, [m2, m1, 0.1, -0.2, l2, l1]))
        c = m.el(run(g, [s * m1, s * m2, 0.1, -0.2, l1, l2]))
        # 3/13 [(1+12 X2/X1) X1^5 l1 + (1+12 X1/X2) X2^5 l2] = 3/16 Lambda~
        w = 3.0 / 13.0 * ((m1 + 12.0 * m2) * m1 ** 4 * l1 + (m2 + 12.0 * m1) * m2 ** 4 * l2) if not m.symbolic(m1) else \
            3.0 / 13.0 * ((m1 + 12.0 * m2) * m.P(m1, 4) * l1 + (m2 + 12.0 * m1) * m.P(m2, 4) * l2)
        return [("published", a * m.P(M, 5), w), ("exchange", a, b), ("scaling", a, c)]

    import ripplegw as r

    def h(v, run):
        m1, m2 = v["M"] * (1.0 + v["d"]) * 0.5, v["M"] * (1.0 - v["d"]) * 0.5
        a = m.el(run(g, [m1, m2, 0.0, 0.0, v["l1"], v["l2"]]))
        t = m.el(run(r.lambdas_to_lambda_tildes, [v["l1"], v["l2"], m1, m2])[0])
        return [("3/16 Lambda~", a, 3.0 / 16.0 * t)]

    ctx.equal("published", f, bx, atol=1e-6)
    ctx.equal("Lambda~", h, {"M": (0.5, 20.0), "d": (0.0, 0.8), "l1": bx["l1"], "l2": bx["l2"]}, atol=1.0)


TASKS = {"fit": fit, "bounds": bounds, "junction": junction, "kappa": kappa}
