"""FD_waveform dispatcher."""
from functools import lru_cache
from vf import m
from checks import lib

LEVEL = "model_checking"
EXPLAIN = "for every advertised name generate_waveform returns both polarizations of that model's own generator with the caller's frequencies, parameters and reference frequency, decided by the solver over the whole parameter box; an unknown name raises ValueError"
TASK_NAMES = ["XAS", "D", "NRT", "P", "history", "history_tidal", "history_precessing", "names"]
OUTSIDE = "names other than the advertised four (a finite list of unknown names is tried); histories other than the three-call sequences of the history tasks"
NAME = {"XAS": "XAS", "D": "D", "NRT": "D_NRTidalv2", "P": "Pv2"}


@lru_cache(None)
def disp(name):
    from ripplegw.FD_waveform import FD_waveform_generator
    g = FD_waveform_generator()
    f = lambda fs, p, fr: g.generate_waveform(NAME[name], fs, p, fr)
    f.vf_name = f"ripplegw.FD_waveform.FD_waveform_generator.generate_waveform[{NAME[name]}]"
    return f


def model(name):
    def task(ctx):
        def prop(v, run):
            if name == "P":
                p, fs, fr = lib.pparams(v), [v["f"], v["f2"]], v["fref"]
            else:
                p, fs, fr = lib.params(name, v), [lib.fr(v), lib.fr(v, "x2")], lib.fr(v, "y")
            a = run(disp(name), fs, p, fr)
            b = run(lib.gen(name), fs, p, fr)
            return [(f"h{c}{i}", m.el(a[j], i), m.el(b[j], i)) for j, c in enumerate("pc") for i in range(2)]

        if name == "P":
            bx = dict(lib.PBOX, f2=lib.PBOX["f"])
            ctx.equal("same as the model", prop, bx, assume=lambda v: [m.le(v["m2"], v["m1"])])
        else:
            bx = lib.wbox(name)
            bx["x2"] = bx["x"]
            ctx.equal("same as the model", prop, bx)

    return task


SEQ = {"history": ("D", "XAS", "D"), "history_tidal": ("NRT", "D", "NRT"), "history_precessing": ("P", "D", "P")}
SUF = ("", "_b", "_c")


def split(v, s):
    return {k[:-len(s)] if s else k: x for k, x in v.items() if (k.endswith(s) if s else not k.endswith(("_b", "_c")))}


def history(seq):
    """One dispatcher object, three calls with independent inputs; each answer is that of a fresh direct call."""
    def task(ctx):
        direct = [lib.gen(n) for n in seq]
        from ripplegw.FD_waveform import FD_waveform_generator

        def both(*a):
            g = FD_waveform_generator()
            return [g.generate_waveform(NAME[n], *a[3 * i:3 * i + 3]) for i, n in enumerate(seq)]
        both.vf_name = "ripplegw.FD_waveform.FD_waveform_generator.generate_waveform[" + ", ".join(NAME[n] for n in seq) + "]"

        def prop(v, run):
            fs, ps, frs = [], [], []
            for n, s in zip(seq, SUF):
                w = split(v, s)
                if n == "P":
                    a = (lib.pparams(w), [w["f"]], w["fref"])
                else:
                    a = (lib.params(n, w), [lib.fr(w)], lib.fr(w, "y"))
                ps.append(a[0]), fs.append(a[1]), frs.append(a[2])
            a = run(both, *[x for q in zip(fs, ps, frs) for x in q])
            out = []
            for i, n in enumerate(seq):
                b = run(direct[i], fs[i], ps[i], frs[i])
                out += [(f"call{i + 1} {NAME[n]} h{c}", m.el(a[i][j], 0), m.el(b[j], 0)) for j, c in enumerate("pc")]
            return out

        bx = {}
        for n, s in zip(seq, SUF):
            bx.update({k + s: r for k, r in (lib.PBOX if n == "P" else lib.wbox(n)).items()})
        kw = {}
        if "P" in seq:
            kw["assume"] = lambda v: [m.le(v["m2" + s], v["m1" + s]) for n, s in zip(seq, SUF) if n == "P"]
        ctx.equal("each call of a sequence", prop, bx, **kw)

    return task


def names(ctx):
    from ripplegw.FD_waveform import FD_waveform_generator
    g = FD_waveform_generator()
    ctx.fact("advertised", set(NAME.values()) <= set(g.generators), sorted(g.generators))
    for n in ("", "d", "IMRPhenomD", "XA", "D_NRTidalv3", "NRTidalv2", " D", "Pv2 ", None, 0):
        if n in g.generators:
            continue
        try:
            r = g.generate_waveform(n, [1.0], [1.0], 1.0)
        except ValueError as e:
            r = "ValueError"
        except Exception as e:
            r = type(e).__name__
        ctx.fact(f"unknown name {n!r}", r == "ValueError", str(r))


TASKS = {n: model(n) for n in NAME}
TASKS.update({n: history(q) for n, q in SEQ.items()})
TASKS["names"] = names
