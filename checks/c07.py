"""FFT match: maximum over the discrete time shifts of the inner product."""
import numpy as np

from vf import m, jx, expr as E
from checks import c06
from checks.c06 import strain, vec, nrm2, parts, nonzero, nonzero1

LEVEL = "model_checking"
EXPLAIN = "for arbitrary complex strains, positive PSDs and pads: the match is the maximum over the N discrete time shifts of |sum conj(h1) h2 exp(2 pi i j k/N)/S| over the norms (N = total padded length), equals the phase-maximised inner product maximised over del_t = k/(N df), is symmetric, invariant under rescaling, 1 on itself and at most 1; the callable interface equals the array interface"
TASK_NAMES = ["arr121", "arr130", "arr212", "props", "physical", "callable", "defaults"]
OUTSIDE = "more than 5 padded points (the FFT is the same linear map for every size); magnitudes other than O(1) and the physical ones (strain 1e-22, PSD 1e-46; rescaling invariance is proved); float rounding"


def box(n, **over):
    b = {k: (-10.0, 10.0) for k in parts(n, "a", "b")}
    b.update({f"S{i}": (1e-2, 10.0) for i in range(n)})
    b.update(over)
    return b


def unit(j, N):
    """exp(2 pi i j / N), quarter turns exactly."""
    j %= N
    if 4 * j % N == 0:
        return (1.0 + 0j, 1j, -1.0 + 0j, -1j)[4 * j // N]
    return complex(np.cos(2 * np.pi * j / N), np.sin(2 * np.pi * j / N))


def shift_values(h1, h2, S, lo, N):
    out = []
    n1, n2 = nrm2(h1, S), nrm2(h2, S)
    for k in range(N):
        z = 0.0
        for i, (x, y, s) in enumerate(zip(h1, h2, S)):
            z = z + m.conj(x) * y * unit(k * (lo + i), N) / s
        out.append(m.sqrt(m.abs2(z)) / (m.sqrt(n1) * m.sqrt(n2)))
    return out


def mx(xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.max_(E.N(r), E.N(x)) if m.symbolic(r, x) else max(r, x)
    return r


def padded(F, lo, hi):
    def g(S, h1, h2):
        return F(np.zeros(lo), np.zeros(hi), S, h1, h2)

    g.vf_name = "ripplegw.get_match_arr"
    return g


def arr(lo, n, hi):
    N = lo + n + hi

    def task(ctx):
        import ripplegw as r
        F = padded(r.get_match_arr, lo, hi)

        def formula(v, run):
            a, b, S = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n)
            return [("maximum over shifts", m.el(run(F, S, a, b)), mx(shift_values(a, b, S, lo, N)))]

        ctx.equal("definition", formula, box(n), assume=nonzero(n), atol=1e-6)

    return task


def props(ctx):
    import ripplegw as r
    n, lo, hi = 2, 1, 1
    N = n + lo + hi
    F = padded(r.get_match_arr, lo, hi)
    G = r.get_phase_maximized_inner_product_arr

    def call(run, v, a, b, S=None):
        return m.el(run(F, vec(v, "S", n) if S is None else S, a, b))

    def inner(v, run):
        a, b, S = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n)
        df = v["df"]
        fs = [df * (lo + i) for i in range(n)]
        return [("inner product at k/(N df)", call(run, v, a, b),
                 mx([m.el(run(G, m.P(df, -1) * (k / N), fs, S, a, b)) for k in range(N)]))]

    def symmetry(v, run):
        a, b = strain(v, "a", n), strain(v, "b", n)
        return [("exchange", call(run, v, a, b), call(run, v, b, a))]

    def invariance(v, run):
        a, b = strain(v, "a", n), strain(v, "b", n)
        base = call(run, v, a, b)
        ph = m.cis(v["phi"])
        return [("scale of h1", call(run, v, [x * v["k"] for x in a], b), base),
                ("scale of h2", call(run, v, a, [x * v["k"] for x in b]), base),
                ("phase of h1", call(run, v, [x * ph for x in a], b), base),
                ("phase of h2", call(run, v, a, [x * ph for x in b]), base),
                ("scale of PSD", call(run, v, a, b, S=[s * v["k"] for s in vec(v, "S", n)]), base)]

    def own(v, run):
        a = strain(v, "a", n)
        return [("self", call(run, v, a, a), 1.0 + 0.0 * v["ar0"])]

    ctx.equal("inner product", inner, box(n, df=(0.1, 5.0)), assume=nonzero(n), atol=1e-6)
    ctx.equal("symmetry", symmetry, box(n), assume=nonzero(n), atol=1e-6)
    ctx.equal("invariance", invariance, box(n, k=(0.1, 10.0), phi=(-7.0, 7.0)), assume=nonzero(n), atol=1e-6, limit=400)
    ctx.equal("self", own, {k: q for k, q in box(n).items() if not k.startswith("b")}, assume=lambda v: [nonzero1(v, n)], atol=1e-6)
    ctx.note("match <= 1 follows from 'inner product' here and 'at most 1' of C06")


def physical(ctx):
    import ripplegw as r
    lo, n, hi = 1, 2, 1
    F = padded(r.get_match_arr, lo, hi)

    def formula(v, run):
        a, b, S = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n)
        x = run(F, [s * c06.P for s in S], [z * c06.H for z in a], [z * c06.H for z in b])
        return [("maximum over shifts", m.el(x), mx(shift_values(a, b, S, lo, lo + n + hi)))]

    ctx.equal("physical magnitudes", formula, box(n), assume=nonzero(n), atol=1e-6)

    def weak(v, run):
        a, b, S = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n)
        x = run(F, S, [z * c06.H for z in a], [z * c06.H for z in b])
        return [("maximum over shifts", m.el(x), mx(shift_values(a, b, S, lo, lo + n + hi)))]

    ctx.equal("weak signals", weak, box(n), assume=nonzero(n), atol=1e-6)


def callables(default):
    def task(ctx):
        import ripplegw as r
        n, lo, hi = 2, 1, 1

        def F(fs, t1, t2):
            return r.get_match(fs, np.zeros(lo), np.zeros(hi), c06._psd, t1, t2, c06._amp1, c06._psi1,
                               None if default else c06._amp2, None if default else c06._psi2)

        F.vf_name = "ripplegw.get_match"

        def F1(fs, t1, t2):
            return r.get_match(fs, np.zeros(lo), np.zeros(hi), c06._psd, t1, t2, c06._amp1, c06._psi1, c06._amp2, None)

        F1.vf_name = F.vf_name

        def prop(v, run):
            f, h1, h2, S = c06.strains(v, n, default)
            t1, t2 = vec(v, "a", n) + vec(v, "p", n), vec(v, "b", n) + vec(v, "q", n)
            out = [("definition", m.el(run(F, f, t1, t2)), mx(shift_values(h1, h2, S, lo, n + lo + hi)))]
            if default:
                h3 = [(a + g) * m.cis(p + g) for a, p, g in zip(vec(v, "b", n), vec(v, "q", n), f)]
                out.append(("phase default only", m.el(run(F1, f, t1, t2)), mx(shift_values(h1, h3, S, lo, n + lo + hi))))
            return out

        b = c06.cbox(n)
        del b["dt"]
        ctx.equal("callables", prop, b, atol=1e-6)

    return task


TASKS = {"arr121": arr(1, 2, 1), "arr130": arr(1, 3, 0), "arr212": arr(2, 1, 2), "props": props, "physical": physical,
         "callable": callables(False), "defaults": callables(True)}
