"""Tidal parameter conversions."""
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "(lambda1, lambda2) <-> (Lambda~, delta Lambda~): published formula, mutual inverses, agreement of the mass and mass-ratio variants; decided for all masses and deformabilities in the box"
TASK_NAMES = ["formula", "inverse", "variants", "physics"]
BX = {"M": (0.5, 20.0), "d": (0.0, 0.8), "l1": (0.0, 1e4), "l2": (0.0, 1e4)}
OUTSIDE = "mass ratios beyond 1:9 and deformabilities outside [0, 1e4]; float64 rounding"


def pm(v):
    return v["M"] * (1.0 + v["d"]) * 0.5, v["M"] * (1.0 - v["d"]) * 0.5


def spec(l1, l2, d):
    """Wade et al. (2014), Eqs. (5) and (6), with sqrt(1-4 eta) = d."""
    e = 0.25 * (1.0 - d * d)
    p, q = l1 + l2, l1 - l2
    lt = 8.0 / 13.0 * ((1.0 + 7.0 * e - 31.0 * e * e) * p + d * (1.0 + 9.0 * e - 11.0 * e * e) * q)
    dl = 0.5 * (d * (1.0 - 13272.0 / 1319.0 * e + 8944.0 / 1319.0 * e * e) * p
                + (1.0 - 15910.0 / 1319.0 * e + 32850.0 / 1319.0 * e * e + 3380.0 / 1319.0 * e * e * e) * q)
    return lt, dl


def q_of(d):
    return (1.0 - d) / (1.0 + d)


def formula(ctx):
    import ripplegw as r

    def f(v, run):
        m1, m2 = pm(v)
        a = run(r.lambdas_to_lambda_tildes, [v["l1"], v["l2"], m1, m2])
        b = run(r.lambdas_to_lambda_tildes_from_q, [v["l1"], v["l2"], q_of(v["d"])])
        lt, dl = spec(v["l1"], v["l2"], v["d"])
        return [("Lambda~", m.el(a[0]), lt), ("delta Lambda~", m.el(a[1]), dl),
                ("Lambda~ from q", m.el(b[0]), lt), ("delta Lambda~ from q", m.el(b[1]), dl)]

    ctx.equal("published", f, BX, atol=1.0)


def inverse(ctx):
    import ripplegw as r

    def f(v, run):
        m1, m2 = pm(v)
        q = q_of(v["d"])
        a = run(r.lambdas_to_lambda_tildes, [v["l1"], v["l2"], m1, m2])
        b = run(r.lambda_tildes_to_lambdas, [m.el(a[0]), m.el(a[1]), m1, m2])
        c = run(r.lambdas_to_lambda_tildes_from_q, [v["l1"], v["l2"], q])
        e = run(r.lambda_tildes_to_lambdas_from_q, [m.el(c[0]), m.el(c[1]), q])
        return [("lambda1", m.el(b[0]), v["l1"]), ("lambda2", m.el(b[1]), v["l2"]),
                ("lambda1 from q", m.el(e[0]), v["l1"]), ("lambda2 from q", m.el(e[1]), v["l2"])]

    def g(v, run):
        m1, m2 = pm(v)
        a = run(r.lambda_tildes_to_lambdas, [v["lt"], v["dl"], m1, m2])
        b = run(r.lambdas_to_lambda_tildes, [m.el(a[0]), m.el(a[1]), m1, m2])
        return [("Lambda~", m.el(b[0]), v["lt"]), ("delta Lambda~", m.el(b[1]), v["dl"])]

    ctx.equal("tildes-of-lambdas", f, BX, atol=1.0)
    ctx.equal("lambdas-of-tildes", g, {"M": BX["M"], "d": BX["d"], "lt": (0.0, 1e4), "dl": (-2e3, 2e3)}, atol=1.0)


def variants(ctx):
    import ripplegw as r

    def f(v, run):
        m1, m2 = pm(v)
        q = m2 / m1
        a = run(r.lambda_tildes_to_lambdas, [v["lt"], v["dl"], m1, m2])
        b = run(r.lambda_tildes_to_lambdas_from_q, [v["lt"], v["dl"], q])
        return [("lambda1", m.el(a[0]), m.el(b[0])), ("lambda2", m.el(a[1]), m.el(b[1]))]

    def g(v, run):
        m1, m2 = pm(v)
        a = run(r.lambdas_to_lambda_tildes, [v["l1"], v["l2"], m1, m2])
        b = run(r.lambdas_to_lambda_tildes_from_q, [v["l1"], v["l2"], m2 / m1])
        return [("Lambda~", m.el(a[0]), m.el(b[0])), ("delta Lambda~", m.el(a[1]), m.el(b[1]))]

    ctx.equal("to-lambdas", f, {"M": BX["M"], "d": BX["d"], "lt": (0.0, 1e4), "dl": (-2e3, 2e3)}, atol=1.0)
    ctx.equal("to-tildes", g, BX, atol=1.0)


def physics(ctx):
    import ripplegw as r

    def f(v, run):
        M = v["M"]
        a = run(r.lambdas_to_lambda_tildes, [v["l1"], v["l1"], 0.5 * M, 0.5 * M])
        return [("equal stars: Lambda~ = lambda", m.el(a[0]), v["l1"]), ("equal stars: delta Lambda~ = 0", m.el(a[1]), 0.0 * v["l1"])]

    def g(v, run):
        # Lambda~ = 16/13 [ (12q+1) l1 + (12+q) q^4 l2 ] / (1+q)^5
        q = v["q"]
        a = run(r.lambdas_to_lambda_tildes, [v["l1"], v["l2"], v["m1"], v["m1"] * q])
        den = (1.0 + q) * (1.0 + q) * (1.0 + q) * (1.0 + q) * (1.0 + q)
        q4 = q * q * q * q
        return [("Flanagan-Hinderer form", m.el(a[0]) * den, 16.0 / 13.0 * ((12.0 * q + 1.0) * v["l1"] + (12.0 + q) * q4 * v["l2"]))]

    ctx.equal("equal-stars", f, {"M": BX["M"], "l1": BX["l1"]}, atol=1.0)
    ctx.equal("flanagan-hinderer", g, {"m1": (0.5, 10.0), "q": (0.05, 1.0), "l1": BX["l1"], "l2": BX["l2"]}, atol=1.0)


TASKS = {"formula": formula, "inverse": inverse, "variants": variants, "physics": physics}
