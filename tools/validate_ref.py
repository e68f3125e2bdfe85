"""Compares the reference models in ref/ with lalsimulation at random points
(a tool for DESIGN.md, not a check). Prints, per model, the worst relative
amplitude difference and the worst phase residual after removing a constant
and a slope in frequency (conventions for phase and time at coalescence)."""
import os, sys
os.environ["JAX_PLATFORMS"], os.environ["JAX_ENABLE_X64"] = "cpu", "1"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo/src"]
import numpy as np, jax.numpy as jnp, lal, lalsimulation as ls
from ref.waveforms.IMRPhenomD import gen_IMRPhenomD_hphc as D
from ref.waveforms.IMRPhenomXAS import gen_IMRPhenomXAS_hphc as X
from ref.waveforms.IMRPhenomD_NRTidalv2 import gen_IMRPhenomD_NRTidalv2_hphc as N
from ref.waveforms.IMRPhenomPv2 import gen_IMRPhenomPv2 as P
from ripplegw.waveforms.TaylorF2 import gen_TaylorF2_hphc as T

DF = 0.5


def lalwf(approx, m1, m2, s1, s2, dist, phic, iota, fref, fmax, lam=None):
    d = lal.CreateDict()
    if lam:
        for k, l in zip((1, 2), lam):
            getattr(ls, f"SimInspiralWaveformParamsInsertTidalLambda{k}")(d, l)
            getattr(ls, f"SimInspiralWaveformParamsInsertdQuadMon{k}")(d, ls.SimUniversalRelationQuadMonVSlambda2Tidal(l) - 1)
    hp, hc = ls.SimInspiralChooseFDWaveform(m1 * lal.MSUN_SI, m2 * lal.MSUN_SI, *s1, *s2, dist * 1e6 * lal.PC_SI, iota,
                                            phic, 0, 0, 0, DF, 20, fmax, fref, d, ls.GetApproximantFromString(approx))
    return hp.data.data, hc.data.data


def compare(h, l, f):
    ok = (np.abs(l) > 0) & (np.abs(h) > 0) & np.isfinite(h)
    r = h[ok] / l[ok]
    ph = np.unwrap(np.angle(r))
    A = np.vstack([np.ones(ok.sum()), f[ok]]).T
    c = np.linalg.lstsq(A, ph, rcond=None)[0]
    a = np.abs(r)
    return np.abs(a - 1).max(), np.quantile(np.abs(ph - A @ c), 0.99)


rng = np.random.default_rng(3)
for name, approx, gen in (("D", "IMRPhenomD", D), ("XAS", "IMRPhenomXAS", X), ("NRTidalv2", "IMRPhenomD_NRTidalv2", N),
                          ("TaylorF2", "TaylorF2", T), ("Pv2", "IMRPhenomPv2", P)):
    wa = wp = 0.0
    for _ in range(12):
        tid = name in ("NRTidalv2", "TaylorF2")
        m2, m1 = np.sort(rng.uniform(1, 2.5, 2) if tid else rng.uniform(8, 60, 2))
        lam = tuple(rng.uniform(20, 1500, 2)) if tid else None
        c = rng.uniform(-1, 1, 6) * (0.3 if tid else 0.55)
        s1, s2 = (tuple(c[:3]), tuple(c[3:])) if name == "Pv2" else ((0, 0, c[0]), (0, 0, c[1]))
        phic, iota, fref = rng.uniform(0, 6), rng.uniform(0.1, 3), rng.uniform(20, 60)
        fmax = 1024.0
        f = np.arange(25, 0.9 * min(fmax, 0.19 / ((m1 + m2) * lal.MTSUN_SI)), DF)
        Mc, eta = (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, m1 * m2 / (m1 + m2) ** 2
        if name == "Pv2":
            h = gen(jnp.array(f), jnp.array([m1, m2, *c, 400.0, 0.0, phic, iota]), fref)
        elif tid:
            h = gen(jnp.array(f), jnp.array([Mc, eta, c[0], c[1], *lam, 400.0, 0.0, phic, iota]), fref, use_lambda_tildes=False)
        else:
            h = gen(jnp.array(f), jnp.array([Mc, eta, c[0], c[1], 400.0, 0.0, phic, iota]), fref)
        l = lalwf(approx, m1, m2, s1, s2, 400.0, phic, iota, fref, fmax, lam)
        i = np.round(f / DF).astype(int)
        for a, b in zip(h, l):
            x, y = compare(np.asarray(a), b[i], f)
            wa, wp = max(wa, x), max(wp, y)
    print(f"{name}: amplitude {wa:.2g}, phase residual {wp:.2g} rad")
