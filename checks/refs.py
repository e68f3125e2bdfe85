"""Reference models, executed next to the code of the repository."""
from functools import lru_cache
from vf import m
from checks import lib


@lru_cache(None)
def gen(name, pol=True):
    from ref.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomD_NRTidalv2, IMRPhenomPv2

    sfx = "_hphc" if pol else ""
    if name == "D":
        g = getattr(IMRPhenomD, "gen_IMRPhenomD" + sfx)
    elif name == "XAS":
        g = getattr(IMRPhenomXAS, "gen_IMRPhenomXAS" + sfx)
    elif name.startswith("NRT"):
        t = getattr(IMRPhenomD_NRTidalv2, "gen_IMRPhenomD_NRTidalv2" + sfx)
        kw = {}
        if "L" in name[3:]:
            kw["use_lambda_tildes"] = False
        if "0" in name[3:]:
            kw["no_taper"] = True
        g = lambda f, p, fr: t(f, p, fr, **kw)
        g.vf_name = f"ref IMRPhenomD_NRTidalv2{sfx}"
    elif name == "P":
        g = IMRPhenomPv2.gen_IMRPhenomPv2
    elif name == "PMc":
        g = IMRPhenomPv2.gen_IMRPhenomPv2_hphc
    else:
        raise KeyError(name)
    return g


def aligned(name, hi=0.6, **over):
    """Task: both polarizations and the bare strain equal the reference."""
    def task(ctx):
        def pol(v, run):
            p, fr = lib.params(name, v), lib.fr(v, "y")
            a = run(lib.gen(name), [lib.fr(v)], p, fr)
            b = run(gen(name), [lib.fr(v)], p, fr)
            return [("hp", m.el(a[0]), m.el(b[0])), ("hc", m.el(a[1]), m.el(b[1]))]

        def bare(v, run):
            p, fr = lib.params(name, v), lib.fr(v, "y")
            a = run(lib.gen(name, False), [lib.fr(v)], p, fr)
            b = run(gen(name, False), [lib.fr(v)], p, fr)
            return [("h0", m.el(a), m.el(b))]

        bx = lib.wbox(name, **over)
        ctx.equal("polarizations", pol, dict(bx, x=(2e-5, 0.1999)))
        ctx.equal("polarizations beyond the cutoff", pol, dict(bx, x=(0.2001, hi)), validate=1)
        bx = lib.wbox(name, iota=False, **over)
        ctx.equal("strain", bare, dict(bx, x=(2e-5, 0.1999)), validate=1)
        ctx.equal("strain beyond the cutoff", bare, dict(bx, x=(0.2001, hi)), validate=1)

    return task


def precessing(name, **over):
    def task(ctx):
        def pol(v, run):
            p = lib.pparams(v)
            a = run(lib.gen(name), [v["f"]], p, v["fref"])
            b = run(gen(name), [v["f"]], p, v["fref"])
            return [("hp", m.el(a[0]), m.el(b[0])), ("hc", m.el(a[1]), m.el(b[1]))]

        bx = dict(lib.PBOX, **over)
        if name == "PMc":
            bx["m2"] = (0.05, 0.2499)
        ctx.equal("polarizations", pol, bx, assume=(lambda v: [m.le(v["m2"], v["m1"])]) if name == "P" else None)

    return task
