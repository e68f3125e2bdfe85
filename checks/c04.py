"""Samplers: ordering, ranges, attainability and independence of the draws."""
import numpy as np
import jax
import z3  # noqa: F401  (vf.smt sets the path)

from vf import m, smt, jx, expr as E

LEVEL = "model_checking"
EXPLAIN = "the samplers map arbitrary uniform draws u in [0,1) to pairs that stay within the ranges (larger first for the mass sampler), reach both ends of every range, and use independent draws per entry; the random bits are symbolic variables"
TASK_NAMES = ["m1_m2", "M_eta"]
OUTSIDE = "statistical quality of jax.random.uniform (assumed: a fresh value in [0,1) per entry); more than 3 rows in the symbolic run (rows are produced by one vectorised call)"

N = 3
RB = {"a": (-1e3, 1e3), "wa": (1e-3, 1e3), "c": (-1e3, 1e3), "wc": (1e-3, 1e3)}


def _draw(get, key=3, n=N):
    def f(a, b, c, d):
        return get((a, b), (c, d))(jax.random.PRNGKey(key), n)

    f.vf_name = f"ripplegw.{get.__name__}"
    return f


def _sampler(ctx, get, ordered):
    sym_f, real_f = _draw(get), _draw(get, n=4096)
    memo = {}

    def outs(v, run):
        a, c = v["a"], v["c"]
        b, d = a + v["wa"], c + v["wc"]
        if run.symbolic:
            if "s" not in memo:
                memo["s"] = np.asarray(run(sym_f, a, b, c, d))
            return memo["s"], (a, b, c, d)
        return np.asarray(run(real_f, a, b, c, d)), (a, b, c, d)

    def rows(v, run):
        o, (a, b, c, d) = outs(v, run)
        lo = m.where(m.lt(a, c), a, c)
        hi = m.where(m.lt(b, d), d, b)
        out = []

        def le(label, x, y):
            if run.symbolic:
                out.extend((f"{label}[{i}]", p, q) for i, (p, q) in enumerate(zip(x, y)))
            else:
                k = int(np.argmax(np.asarray(x) - np.asarray(y)))
                out.extend((f"{label}[{i}]", x[k], y[k]) for i in range(N))

        n = o.shape[0]
        A, B = list(o[:, 0]), list(o[:, 1])
        if ordered:
            le("ordered", B, A)
            le("low", [lo] * n, B)
            le("high", A, [hi] * n)
            # the pair comes from the two ranges, in one order or the other
            def gap(x, y):
                p = [x - b, a - x, y - d, c - y]
                r = p[0]
                for q in p[1:]:
                    r = m.where(m.lt(r, q), q, r)
                return r

            g = [m.where(m.lt(gap(x, y), gap(y, x)), gap(x, y), gap(y, x)) for x, y in zip(A, B)]
            le("one from each range", g, [0.0 * a] * n)
        else:
            le("low 0", [a] * n, A)
            le("high 0", A, [b] * n)
            le("low 1", [c] * n, B)
            le("high 1", B, [d] * n)
        return out

    ctx.note("jax.random.uniform(minval, maxval) is minval + u (maxval - minval) with an arbitrary fresh u in [0, 1) per entry")
    ctx.leq("ranges", rows, RB, validate=0)
    if ctx.mode == "full":
        for e in ctx._draw(RB, 6, None):
            ctx.check_concrete("ranges", rows, e, lambda a, b: (float(a - b), f"{a!r} > {b!r}") if a > b + 1e-9 * (1 + abs(b)) else None, "real draws")
            ctx.validated += 1
    shape = np.asarray(real_f(1.0, 2.0, 3.0, 4.0)).shape
    ctx.fact("shape", shape == (4096, 2), shape)
    if ctx.mode != "full":
        return
    # attainability and independence on the symbolic result, for concrete ranges
    for rg in ((1.0, 2.0, 3.0, 4.0), (5.0, 50.0, 1.0, 60.0), (1.0, 3.0, 1.0, 3.0)):
        try:
            o = np.asarray(ctx.sym(sym_f, *rg))
            vs = [[set(x.val for x in E.variables([E.N(o[i, j])])) for j in (0, 1)] for i in range(N)]
        except Exception as e:
            ctx.record(f"attain{rg}", "undecided", reason=f"not encodable: {e}")
            continue
        a, b, c, d = rg
        okk = True
        for p in (a, b):
            for q in (c, d):
                t = (max(p, q), min(p, q)) if ordered else (p, q)
                enc = smt.Enc(box={x: (0.0, 1.0) for i in range(N) for s in vs[i] for x in s})
                z = [enc(E.N(o[0, j])) for j in (0, 1)]
                tol = 1e-3 * (b - a + d - c)
                w, _ = smt.check(enc.side + [z[0] - t[0] <= tol, t[0] - z[0] <= tol, z[1] - t[1] <= tol, t[1] - z[1] <= tol], 10000, "attainability")
                okk &= w == "sat"
        name = "attain %g-%g %g-%g" % rg
        if okk:
            ctx.record(name, "proved", kind="every corner of the ranges is attained for some draw (sat queries)", paths=4)
        else:
            # replay: 20000 draws of the real code stay away from a corner
            r = np.asarray(_draw(get, n=20000)(*rg))
            far = None
            for p in (a, b):
                for q in (c, d):
                    t = np.array((max(p, q), min(p, q)) if ordered else (p, q))
                    dist = np.abs((r - t) / np.array([max(b, d) - min(a, c)] * 2)).max(axis=1).min()
                    if dist > 0.1:
                        far = (t.tolist(), float(dist))
            if far:
                ctx.fact(name, False, f"no draw of 20000 comes near {far[0]} (distance {far[1]:.2g} of the range)")
            else:
                ctx.record(name, "undecided", reason="corner not attained in the encoding")
        pair = [vs[i][0] | vs[i][1] for i in range(N)]
        dis = all(not (pair[i] & pair[j]) for i in range(N) for j in range(i))
        ind = all(len(p) >= 2 for p in pair)
        r = np.asarray(_draw(get, n=64)(*rg))
        r2 = np.asarray(_draw(get, key=4, n=64)(*rg))
        distinct = len(np.unique(r, axis=0)) > 32 and not np.array_equal(r, r2)
        big = np.asarray(_draw(get, n=4096)(*rg))
        rank = np.linalg.matrix_rank(np.c_[big - big.mean(0)], tol=1e-3) == 2
        name = "independent draws %g-%g %g-%g" % rg
        if dis and ind or not (distinct and rank):
            ctx.fact(name, distinct and rank, f"distinct rows, key matters: {distinct}; columns not functions of one another: {rank}")
        else:
            ctx.record(name, "undecided", reason="draws shared between entries of the encoding")


def m1_m2(ctx):
    import ripplegw as r

    _sampler(ctx, r.get_m1_m2_sampler, True)


def M_eta(ctx):
    import ripplegw as r

    _sampler(ctx, r.get_M_eta_sampler, False)


TASKS = {"m1_m2": m1_m2, "M_eta": M_eta}
