"""Phase-maximised inner product: definition, bounds, symmetries."""
import numpy as np
import jax
import jax.numpy as jnp

from vf import m, jx, expr as E

LEVEL = "model_checking"
EXPLAIN = "for arbitrary complex strains and positive PSDs at n frequencies: the value is |sum conj(h1) h2 exp(2 pi i f dt)/S| over the norms, symmetric, invariant under rescaling and rephasing, 1 on itself, and at most 1 (Cauchy-Schwarz, by the Lagrange identity decided symbolically); the callable interface equals the array interface, with the defaults for the second waveform"
TASK_NAMES = ["arr2", "arr3", "arr4", "physical", "long", "callable", "defaults"]
OUTSIDE = "more than 4 grid points with arbitrary strain at every point (grids of 1000 and 1023 points: arbitrary strain at 5 of them, zero elsewhere); magnitudes other than O(1) and the physical ones (strain 1e-22, PSD 1e-46; invariance under rescaling is proved); float rounding"


def parts(n, *names):
    return [f"{q}{p}{i}" for q in names for i in range(n) for p in ("r", "i")]


def box(n, **over):
    b = {k: (-10.0, 10.0) for k in parts(n, "a", "b")}
    b.update({f"S{i}": (1e-2, 10.0) for i in range(n)})
    b.update({f"f{i}": (0.1, 5.0) for i in range(n)})
    b["dt"] = (-5.0, 5.0)
    b.update(over)
    return b


def strain(v, q, n):
    return [m.cx(v[f"{q}r{i}"], v[f"{q}i{i}"]) for i in range(n)]


def vec(v, q, n):
    return [v[f"{q}{i}"] for i in range(n)]


def nonzero(n):
    return lambda v: [m.lt(1e-3, sum(m.abs2(x) for x in strain(v, q, n))) for q in ("a", "b")]


def overlap(h1, h2, S, f, dt):
    z = 0.0
    for x, y, s, g in zip(h1, h2, S, f):
        z = z + m.conj(x) * y * m.cis(g * dt * (2.0 * np.pi)) / s
    return z


def nrm2(h, S):
    return sum(m.abs2(x) / s for x, s in zip(h, S))


def definition(h1, h2, S, f, dt):
    return m.sqrt(m.abs2(overlap(h1, h2, S, f, dt))) / (m.sqrt(nrm2(h1, S)) * m.sqrt(nrm2(h2, S)))


def arr(n):
    def task(ctx):
        import ripplegw as r
        F = r.get_phase_maximized_inner_product_arr

        def call(run, v, h1, h2, S=None, dt=None):
            return m.el(run(F, v["dt"] if dt is None else dt, vec(v, "f", n), vec(v, "S", n) if S is None else S, h1, h2))

        def formula(v, run):
            a, b = strain(v, "a", n), strain(v, "b", n)
            return [("definition", call(run, v, a, b), definition(a, b, vec(v, "S", n), vec(v, "f", n), v["dt"]))]

        def symmetry(v, run):
            a, b = strain(v, "a", n), strain(v, "b", n)
            return [("exchange", call(run, v, a, b), call(run, v, b, a, dt=-v["dt"]))]

        def invariance(v, run):
            a, b = strain(v, "a", n), strain(v, "b", n)
            base = call(run, v, a, b)
            ph = m.cis(v["phi"])
            return [("scale of h1", call(run, v, [x * v["k"] for x in a], b), base),
                    ("scale of h2", call(run, v, a, [x * v["k"] for x in b]), base),
                    ("phase of h1", call(run, v, [x * ph for x in a], b), base),
                    ("phase of h2", call(run, v, a, [x * ph for x in b]), base),
                    ("scale of PSD", call(run, v, a, b, S=[s * v["k"] for s in vec(v, "S", n)]), base)]

        def own(v, run):
            a = strain(v, "a", n)
            return [("self", call(run, v, a, a, dt=0.0 * v["dt"]), 1.0 + 0.0 * v["dt"])]

        def shifted(v, run):
            # a time shift of the second waveform is undone by del_t
            a = strain(v, "a", n)
            b = [x * m.cis(g * v["dt"] * (-2.0 * np.pi)) for x, g in zip(a, vec(v, "f", n))]
            return [("time shift", call(run, v, a, b), 1.0 + 0.0 * v["dt"])]

        def bound(v, run):
            a, b, S = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n)
            e = [m.cis(g * v["dt"] * (2.0 * np.pi)) for g in vec(v, "f", n)]
            x = call(run, v, a, b)
            c = [y * z for y, z in zip(b, e)]
            sos = 0.0
            for i in range(n):
                for j in range(i):
                    d = a[i] * c[j] - a[j] * c[i]
                    sos = sos + m.abs2(d) / (S[i] * S[j])
            return [("1 - x^2 is a sum of squares", 1.0 - x * x, sos / (nrm2(a, S) * nrm2(b, S)))]

        ctx.equal("definition", formula, box(n), assume=nonzero(n), atol=1e-6)
        ctx.equal("symmetry", symmetry, box(n), assume=nonzero(n), atol=1e-6)
        if n < 4:
            ctx.equal("invariance", invariance, box(n, k=(0.1, 10.0), phi=(-7.0, 7.0)), assume=nonzero(n), atol=1e-6)
        ctx.equal("self", own, {k: q for k, q in box(n).items() if not k.startswith("b")},
                  assume=lambda v: [nonzero1(v, n)], atol=1e-6)
        ctx.equal("shifted", shifted, {k: q for k, q in box(n).items() if not k.startswith("b")},
                  assume=lambda v: [nonzero1(v, n)], atol=1e-6)
        if n < 4:
            ctx.equal("at most 1", bound, box(n), assume=nonzero(n), atol=1e-6)

    return task


# strains and PSDs of the size detectors see
H, P = 2.0 ** -73, 2.0 ** -153


def physical(ctx):
    import ripplegw as r
    F = r.get_phase_maximized_inner_product_arr
    for n in (2, 3):
        def formula(v, run):
            a, b, S, f = strain(v, "a", n), strain(v, "b", n), vec(v, "S", n), vec(v, "f", n)
            x = run(F, v["dt"], f, [s * P for s in S], [z * H for z in a], [z * H for z in b])
            return [("definition", m.el(x), definition(a, b, S, f, v["dt"]))]

        bx = box(n, dt=(-10.0, 10.0))
        bx.update({f"f{i}": (5.0, 2000.0) for i in range(n)})
        ctx.equal(f"physical magnitudes, {n} points", formula, bx, assume=nonzero(n), atol=1e-6)

    def weak(v, run):
        a, b, S, f = strain(v, "a", 2), strain(v, "b", 2), vec(v, "S", 2), vec(v, "f", 2)
        x = run(F, v["dt"], f, S, [z * H for z in a], [z * H for z in b])
        return [("definition", m.el(x), definition(a, b, S, f, v["dt"]))]

    ctx.equal("weak signals", weak, box(2), assume=nonzero(2), atol=1e-6)


def long(ctx):
    """Long grids, strain at five of the points."""
    import ripplegw as r
    F = r.get_phase_maximized_inner_product_arr
    for n, at in ((1000, (0, 1, 511, 896, 999)), (1023, (0, 512, 1000, 1021, 1022))):
        k = len(at)
        fs = 20.0 + 0.25 * np.arange(n)

        def formula(v, run):
            a, b, S = strain(v, "a", k), strain(v, "b", k), vec(v, "S", k)

            def spread(xs, fill):
                r = [fill] * n
                for i, x in zip(at, xs):
                    r[i] = x
                return r

            z = m.cx(0.0 * v["ar0"], 0.0 * v["ar0"])
            x = run(F, v["dt"], list(fs), spread(S, 1.0 + 0.0 * v["S0"]), spread(a, z), spread(b, z))
            return [("definition", m.el(x), definition(a, b, S, [float(fs[i]) for i in at], v["dt"]))]

        bx = {q: w for q, w in box(k).items() if q[0] != "f"}
        ctx.equal(f"{n} points", formula, bx, assume=nonzero(k), atol=1e-6)


def nonzero1(v, n):
    return m.lt(1e-3, sum(m.abs2(x) for x in strain(v, "a", n)))


# arbitrary amplitude and phase values at the grid points are the parameters
def _amp1(fs, th):
    return th[: fs.shape[0]] * fs


def _psi1(fs, th):
    n = fs.shape[0]
    return th[n:2 * n] + fs


def _amp2(fs, th):
    return th[: fs.shape[0]] + fs


def _psi2(fs, th):
    n = fs.shape[0]
    return th[n:2 * n] * fs


def _psd(fs):
    return 1.0 + fs * fs


def cbox(n):
    b = {f"{q}{i}": (0.1, 5.0) for q in "ab" for i in range(n)}
    b.update({f"{q}{i}": (-5.0, 5.0) for q in "pq" for i in range(n)})
    b.update({f"f{i}": (0.1, 5.0) for i in range(n)})
    b["dt"] = (-5.0, 5.0)
    return b


def strains(v, n, default):
    f = vec(v, "f", n)
    h1 = [a * g * m.cis(p + g) for a, p, g in zip(vec(v, "a", n), vec(v, "p", n), f)]
    if default:
        h2 = [a * g * m.cis(p + g) for a, p, g in zip(vec(v, "b", n), vec(v, "q", n), f)]
    else:
        h2 = [(a + g) * m.cis(p * g) for a, p, g in zip(vec(v, "b", n), vec(v, "q", n), f)]
    return f, h1, h2, [1.0 + g * g for g in f]


def callables(default):
    def task(ctx):
        import ripplegw as r
        G = r.get_phase_maximized_inner_product
        n = 2

        def F(dt, fs, t1, t2):
            return G(dt, fs, _psd, t1, t2, _amp1, _psi1, None if default else _amp2, None if default else _psi2)

        F.vf_name = "ripplegw.get_phase_maximized_inner_product"

        def F1(dt, fs, t1, t2):  # only one of the two given
            return G(dt, fs, _psd, t1, t2, _amp1, _psi1, _amp2, None)

        F1.vf_name = F.vf_name

        def prop(v, run):
            f, h1, h2, S = strains(v, n, default)
            t1, t2 = vec(v, "a", n) + vec(v, "p", n), vec(v, "b", n) + vec(v, "q", n)
            out = [("definition", m.el(run(F, v["dt"], f, t1, t2)), definition(h1, h2, S, f, v["dt"]))]
            if default:
                h3 = [(a + g) * m.cis(p + g) for a, p, g in zip(vec(v, "b", n), vec(v, "q", n), f)]
                out.append(("phase default only", m.el(run(F1, v["dt"], f, t1, t2)), definition(h1, h3, S, f, v["dt"])))
            return out

        ctx.equal("callables", prop, cbox(n), atol=1e-6)

    return task


TASKS = {"arr2": arr(2), "arr3": arr(3), "arr4": arr(4), "physical": physical, "long": long, "callable": callables(False), "defaults": callables(True)}
