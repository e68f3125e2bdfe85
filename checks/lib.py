"""Shared pieces of the checks: input boxes and uniform access to the
waveform generators of the repository."""
import math
import os
from fractions import Fraction as Fr
from functools import lru_cache

import jax.numpy as jnp

from vf import m, expr as E

BOX = {
    "M": (1.0, 1000.0), "d": (0.0, 0.9), "chi1": (-0.99, 0.99), "chi2": (-0.99, 0.99), "D": (1e-3, 1e6),
    "tc": (-100.0, 100.0), "phic": (-10.0, 10.0), "iota": (0.0, 3.15), "f": (1.0, 8192.0), "fref": (1.0, 8192.0),
    "x": (2e-5, 0.1999), "y": (2e-5, 0.1999),
    "l1": (0.0, 5000.0), "l2": (0.0, 5000.0), "k": (1e-3, 1e3), "a": (-10.0, 10.0),
}

THOROUGH = os.environ.get("VF_TIER") == "thorough"
if THOROUGH:
    BOX.update(M=(0.5, 2000.0), d=(0.0, 0.95), D=(1e-6, 1e9), tc=(-1000.0, 1000.0), phic=(-100.0, 100.0), k=(1e-6, 1e6), a=(-100.0, 100.0))


def box(*names, **over):
    b = {n: BOX[n] for n in names}
    b.update(over)
    return b


def masses(v, scale=1.0):
    """(Mc, eta) of total mass v['M'] and mass difference ratio v['d']."""
    d = v["d"]
    eta = 0.25 * (1.0 - d * d)
    return v["M"] * scale * m.P(eta, Fr(3, 5)), eta


# --- generators: name -> fun(f, params, f_ref) returning (hp, hc) or h0 -------
@lru_cache(None)
def gen(name, pol=True, fref=None, **_):
    """Uniform wrapper f(fs, params[, f_ref]) around the public generators."""
    from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, TaylorF2, IMRPhenomD_NRTidalv2, IMRPhenomPv2

    sfx = "_hphc" if pol else ""
    if name == "D":
        g = getattr(IMRPhenomD, "gen_IMRPhenomD" + sfx)
    elif name == "XAS":
        g = getattr(IMRPhenomXAS, "gen_IMRPhenomXAS" + sfx)
    elif name in ("TF2", "TF2L"):
        t = getattr(TaylorF2, "gen_TaylorF2" + sfx)
        if name == "TF2":
            g = lambda f, p, fr: t(f, p, fr)
        else:
            g = lambda f, p, fr: t(f, p, fr, use_lambda_tildes=False)
        g.vf_name = f"ripplegw.waveforms.TaylorF2.gen_TaylorF2{sfx}"
    elif name.startswith("NRT"):
        t = getattr(IMRPhenomD_NRTidalv2, "gen_IMRPhenomD_NRTidalv2" + sfx)
        kw = {}
        if "L" in name[3:]:
            kw["use_lambda_tildes"] = False
        if "0" in name[3:]:
            kw["no_taper"] = True
        g = lambda f, p, fr: t(f, p, fr, **kw)
        g.vf_name = f"ripplegw.waveforms.IMRPhenomD_NRTidalv2.gen_IMRPhenomD_NRTidalv2{sfx}"
    elif name == "P":
        g = IMRPhenomPv2.gen_IMRPhenomPv2
    elif name == "PMc":
        g = IMRPhenomPv2.gen_IMRPhenomPv2_hphc
    else:
        raise KeyError(name)
    if fref is not None:
        h = lambda f, p: g(f, p, fref)
        h.vf_name = getattr(g, "vf_name", f"{g.__module__}.{g.__qualname__}")
        return h
    return g


ALIGNED = ("TF2", "TF2L", "D", "XAS", "NRT", "NRTL", "NRT0", "NRTL0")


def tidal(name):
    return name.startswith(("TF2", "NRT"))


def names_for(name, *extra, iota=True):
    b = ["M", "d", "chi1", "chi2"]
    if tidal(name):
        b += ["l1", "l2"]
    b += ["D", "tc", "phic"]
    if iota:
        b.append("iota")
    b.append("x")
    if not name.startswith("TF2"):
        b.append("y")
    return b + list(extra)


def wbox(name, *extra, iota=True, **over):
    """Input box of an aligned-spin generator."""
    b = box(*names_for(name, *extra, iota=iota))
    if tidal(name):
        b.update({k: x for k, x in TBOX.items() if k in b})
        if not name.endswith("L") and "L" not in name:
            b["l2"] = (-500.0, 500.0)
    b.update(over)
    return b


def params(name, v, scale=1.0, **over):
    """Parameter vector of an aligned-spin generator (with inclination)."""
    w = dict(v, **over)
    Mc, eta = masses(w, scale)
    p = [Mc, eta, w["chi1"], w["chi2"]]
    if tidal(name):
        l1, l2 = w["l1"], w["l2"]
        p += [l1, l2]
    p += [w["D"], w["tc"], w["phic"]]
    if "iota" in w:
        p.append(w["iota"])
    return p


TF2_FREF = 20.0


TBOX = {"M": (1.0, 40.0), "d": (0.0, 0.5)} if THOROUGH else {"M": (2.0, 20.0), "d": (0.0, 0.5)}
MSUN_S = 4.925490947641267e-06


def fr(v, k="x", scale=1.0):
    """Frequency in Hz of the dimensionless frequency v[k] = M f."""
    return v[k] / (v["M"] * scale * MSUN_S)


def hphc(run, name, v, fs, scale=1.0, fref=None, **over):
    """(hp, hc) arrays of the generator at the frequencies fs."""
    p = params(name, v, scale, **over)
    if name.startswith("TF2"):
        return run(gen(name, True, TF2_FREF if fref is None else fref), fs, p)
    return run(gen(name, True), fs, p, fr(v, "y", scale) if fref is None else fref)


def h0(run, name, v, fs, scale=1.0, fref=None, **over):
    p = params(name, v, scale, **over)
    if "iota" in dict(v, **over):
        p = p[:-1]
    if name.startswith("TF2"):
        return run(gen(name, False, TF2_FREF if fref is None else fref), fs, p)
    return run(gen(name, False), fs, p, fr(v, "y", scale) if fref is None else fref)


PBOX = {
    "m1": (1.0, 200.0), "m2": (1.0, 200.0), "s1x": (-0.5, 0.5), "s1y": (-0.5, 0.5), "s1z": (-0.5, 0.5),
    "s2x": (-0.5, 0.5), "s2y": (-0.5, 0.5), "s2z": (-0.5, 0.5), "D": (1e-3, 1e6), "tc": (-100.0, 100.0),
    "phic": (-10.0, 10.0), "iota": (0.05, 3.05), "f": (1.0, 8192.0), "fref": (1.0, 8192.0),
}

if THOROUGH:
    PBOX.update(m1=(0.5, 1000.0), m2=(0.5, 1000.0), D=(1e-6, 1e9), tc=(-1000.0, 1000.0), phic=(-100.0, 100.0), iota=(0.01, 3.13))


def pparams(v, **over):
    w = dict(v, **over)
    return [w[k] for k in ("m1", "m2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "D", "tc", "phic", "iota")]
