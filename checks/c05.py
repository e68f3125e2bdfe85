"""get_eff_pads: lengths of the FFT padding, with float rounding modelled."""
import contextlib
import itertools
import warnings

import numpy as np
import jax
import jax.numpy as jnp

from vf import m, smt, jx, expr as E, check as K
import z3

LEVEL = "model_checking"
EXPLAIN = "on a uniform grid k0*df..k1*df the paddings have k0 and k1-2 entries, for symbolic integer k0 and real df, with every float operation carrying a symbolic rounding error; a grid that is uneven or off the multiples of df always warns"
TASK_NAMES = ["n4", "n5", "n64", "n1000", "n4001", "warn"]
OUTSIDE = "grid sizes other than 4, 5, 64, 1000, 4001 in the symbolic run; first index above 1e6; rounding errors above 2^-52 per operation; float32"

EPS = 2.0 ** -52


class Path:
    """Oracle for the truth values asked for while tracing."""

    def __init__(self, choice):
        self.choice, self.asked, self.warned = list(choice), [], 0


@contextlib.contextmanager
def hooks(path):
    """While tracing: truth tests fork, zeros of symbolic length give the
    length, warnings are counted."""
    T = jax.core.Tracer
    ob, oz, ow = T.__bool__, jnp.zeros, warnings.warn

    def tb(self):
        k = len(path.asked)
        path.asked.append(self)
        return path.choice[k] if k < len(path.choice) else False

    def zeros(shape, *a, **k):
        s = shape[0] if isinstance(shape, (tuple, list)) and len(shape) == 1 else shape
        return s if isinstance(s, T) else oz(shape, *a, **k)

    def warn(*a, **k):
        path.warned += 1

    T.__bool__, jnp.zeros, warnings.warn = tb, zeros, warn
    try:
        yield
    finally:
        T.__bool__, jnp.zeros, warnings.warn = ob, oz, ow


def execute(fun, fs):
    """All control paths of fun on a symbolic grid:
    [(decisions [(node, bool)], warnings issued, output lengths)]."""
    n = fs.shape[0]
    out, todo = [], [()]
    while todo:
        ch = todo.pop()
        p = Path(ch)

        def f(x):
            with hooks(p):
                a, b = fun(x)
                ln = [y if y.ndim == 0 else jnp.asarray(y.shape[0]) for y in (a, b)]
            return ln, list(p.asked)

        flat = lambda x: jax.tree_util.tree_leaves(f(x))
        try:
            cj = jax.make_jaxpr(flat)(jax.ShapeDtypeStruct((n,), jnp.float64))
        except Exception as e:
            raise E.Unsupported(f"{type(e).__name__}: {str(e)[:200]}")
        o = jx.run_closed(cj, [fs])
        dec = list(ch) + [False] * (len(p.asked) - len(ch))
        o = [x if jx.is_sym(x) else jx.obj(x) for x in o]
        conds = [(x.reshape(-1)[0], d) for x, d in zip(o[2:], dec)]
        out.append((conds, p.warned, [E.toreal(E.N(x.reshape(-1)[0])) if not isinstance(x.reshape(-1)[0], E.Node) else x.reshape(-1)[0] for x in o[:2]], K.count_eqns(cj.jaxpr)))
        for i in range(len(ch), len(p.asked)):
            todo.append(tuple(dec[:i]) + (True,))
        if len(out) > 24:
            raise E.Unsupported("too many control paths")
    return out


def grid(k0, df, n):
    return (k0 + np.arange(n)) * df


def _concrete(ctx, n):
    import ripplegw as r

    def rows(v, run):
        k0, df = float(np.floor(v["k0"])), float(v["df"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            a, b = r.get_eff_pads(jnp.asarray(grid(k0, df, n)))
        z = float(np.abs(np.asarray(a)).sum() + np.abs(np.asarray(b)).sum())
        return [("pad_low length", float(a.shape[0]), k0), ("pad_high length", float(b.shape[0]), k0 + n - 3), ("zeros", z, 0.0),
                ("1-D", float(a.ndim + b.ndim), 2.0)]

    return rows


def cmp(a, b):
    return (abs(a - b), f"{a} instead of {b}") if a != b else None


def size(n):
    def task(ctx):
        import ripplegw as r

        box = {"k0": (0.0, 1e6), "df": (1e-4, 1e3)}
        rows = _concrete(ctx, n)
        if ctx.mode == "replay":
            if ctx.replay_spec["name"] == "lengths":
                ctx.check_concrete("lengths", rows, ctx.replay_spec["env"], cmp, "replay")
            return
        # real runs: encoding validation and replay
        bases = [0.1, 0.25, 1 / 3, 0.05, 0.2, 0.3, 1.0, 0.125, 0.7]
        for i in range(40):
            e = {"k0": float(ctx.rng.integers(1, [10, 300, 5000][i % 3])), "df": bases[i % 9] if i < 27 else float(ctx.rng.uniform(0.01, 3))}
            ctx.check_concrete("lengths", rows, e, cmp, "real run")
            ctx.validated += 1
        if ctx.mode == "concrete":
            ctx.record("lengths", "undecided", reason="symbolic run did not finish")
            return
        ctx.note(f"each float operation of the code is exact up to a relative error of at most 2^-52 (symbolic)")
        rec = {"kind": "lengths with symbolic rounding", "box": {k: list(v) for k, v in box.items()}}
        k0, df = E.var("k0"), E.var("df")
        jx.OPTIONS["rounding"] = True
        try:
            fs = jx.with_rounding(np.array([E.mul(E.add(k0, E.const(float(i))), df) for i in range(n)], dtype=object))
            paths = execute(r.get_eff_pads, fs)
        except (E.Unsupported, RecursionError) as e:
            ctx.record("lengths", "undecided", reason=f"not encodable: {e}", **rec)
            return
        finally:
            jx.OPTIONS["rounding"] = False
        ctx.sym.functions["ripplegw.get_eff_pads"] = paths[0][3]
        und = []
        goals = {}
        for conds, _, (lo, hi), _ in paths:
            goals[(lo.id, 0)] = (lo, 0)
            goals[(hi.id, n - 3)] = (hi, n - 3)
        for ln, off in goals.values():
            v = decide(ln, off, box, n)
            if v is not True:
                und.append(v)
        if ctx.viol:
            ctx.record("lengths", "violated", **rec)
        elif und:
            ctx.record("lengths", "undecided", reason=str(und)[:400], paths=len(paths), **rec)
        else:
            ctx.record("lengths", "proved", paths=len(paths), **rec)

    return task


def decide(ln, off, box, n):
    """ln == k0 + off for every integer k0 and all rounding errors.

    Step 1 (reals): the argument of each integer conversion lies within 1/100
    of an integer k0 + j.  Step 2 (linear integer arithmetic): hence ln."""
    def atoms(x):
        return [y for y in E.topo([x]) if y.op in ("trunc", "floor", "round", "ceil")]

    env = {"k0": np.array([12345.0]), "df": np.array([0.7])}
    lemma = []
    for a in atoms(ln):
        y = a.args[0]
        inner = [x for x in E.topo([y]) if x.op in ("trunc", "floor", "round", "ceil") and x is not a]
        if inner:
            return "nested integer conversion"
        vs = E.variables([y])
        en = {x.val: env.get(x.val, np.array([0.0])) for x in vs}
        val = float(np.asarray(E.evaluate([y], en)[y.id]).reshape(-1)[0])
        j = round(val - 12345.0)
        # with eps and df: normalise df to 1 (the grid is homogeneous in df)
        enc = smt.Enc(box=box)
        z = enc(y)
        K0 = enc.var("k0")
        side = list(enc.side)
        for x in vs:
            if x.val.startswith("eps!"):
                side += [enc.var(x.val) <= smt.zv(smt.Fraction(EPS)), enc.var(x.val) >= -smt.zv(smt.Fraction(EPS))]
        d = z3.Q(1, 100)
        w, _ = smt.check(side + [z3.Or(z - K0 - j > d, z - K0 - j < -d)], 60000, "rounding")
        if w != "unsat":
            return f"rounding bound: {w}"
        lemma.append((a, j))
    # integer conversions commute with integer translation (arguments above
    # 1), so an affine combination of them is settled by its values at k = 0,
    # 1, 2 (exactly) and at two larger k
    for k in (0, 1, 2, 3, 1000, 2000):
        enc = smt.Enc()
        rep, lin = {}, []
        for i, (a, j) in enumerate(lemma):
            rep[a.args[0]] = E.var(f"arg{i}")
            t = enc.var(f"arg{i}")
            lin += [t - k - j <= z3.Q(1, 100), t - k - j >= -z3.Q(1, 100)]
        z = enc(E.substitute([ln], rep)[0])
        w, mod = smt.check(lin + enc.side + [enc.var("k0") == k, z != k + off], 30000, "integer")
        if w != "unsat":
            return f"length at k0={k}: {w}"
    if not affine(ln):
        return "length is not an affine combination of integer conversions"
    return True


def affine(x):
    if x.op in ("num",) or x.op in E.ROUNDERS:
        return True
    if x.op == "add":
        return all(affine(y) for y in x.args)
    if x.op == "mul":
        return affine(x.args[1]) and E.isnum(x.args[0]) or affine(x.args[0]) and E.isnum(x.args[1])
    return False


def warn(ctx):
    """A grid with one displaced point, or with ends off the multiples of the
    spacing, reaches the end of the function only through a warning."""
    import ripplegw as r

    n = 5
    cases = {
        "uneven": {"k0": (0.0, 1e4), "df": (1e-3, 1e3), "t": (0.05, 0.9)},
        "offset": {"k0": (0.0, 1e4), "df": (1e-3, 1e3), "t": (0.05, 0.95)},
    }
    for name, box in cases.items():
        def points(k0, df, t, lib):
            if name == "offset":
                return [(k0 + t + i) * df for i in range(n)]
            return [(k0 + i + (t if i == 2 else 0.0)) * df for i in range(n)]

        def rows(v, run):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r.get_eff_pads(jnp.asarray(np.array(points(float(np.floor(v["k0"])), float(v["df"]), float(v["t"]), np))))
                except Exception:
                    return [("warns", 1.0, 1.0)]
            return [("warns", float(bool(w)), 1.0)]

        if ctx.mode == "replay":
            if ctx.replay_spec["name"] == name:
                ctx.check_concrete(name, rows, ctx.replay_spec["env"], cmp, "replay")
            continue
        for e in ctx._draw(box, 8, None):
            e["k0"] = float(np.floor(e["k0"]))
            ctx.check_concrete(name, rows, e, cmp, "real run")
            ctx.validated += 1
        rec = {"kind": "unsatisfiability of the silent paths", "box": {k: list(v) for k, v in box.items()}}
        if ctx.mode == "concrete":
            ctx.record(name, "undecided", reason="symbolic run did not finish")
            continue
        k0, df, t = E.var("k0"), E.var("df"), E.var("t")
        try:
            fs = np.array([E.N(x) for x in points(k0, df, t, E)], dtype=object)
            paths = execute(r.get_eff_pads, fs)
        except (E.Unsupported, RecursionError) as e:
            ctx.record(name, "undecided", reason=f"not encodable: {e}", **rec)
            continue
        ctx.sym.functions["ripplegw.get_eff_pads"] = paths[0][3]
        verdicts = []
        for conds, warned, _, _ in paths:
            if warned:
                continue
            # df = 1 without loss of generality is not assumed: df stays symbolic
            enc = smt.Enc(box=box)
            c = [enc(x) if d else z3.Not(enc(x)) for x, d in conds]
            K0 = enc.var("k0")
            ki = z3.Int("k0i")
            w, mod = smt.check(enc.side + c + [K0 == z3.ToReal(ki)], 20000, "silent path")
            if w == "sat":
                e = {k: float(np.clip(smt.mval(mod, enc.vars[k]), *box[k])) for k in box}
                ctx.check_concrete(name, rows, e, cmp, "solver counterexample")
            verdicts.append(w)
        if any(x["name"] == name for x in ctx.viol):
            ctx.record(name, "violated", **rec)
        elif verdicts and all(w == "unsat" for w in verdicts):
            ctx.record(name, "proved", paths=len(paths), silent=len(verdicts), **rec)
        else:
            ctx.record(name, "undecided", reason=str(verdicts), **rec)


TASKS = {"warn": warn, **{t: size(int(t[1:])) for t in TASK_NAMES if t != "warn"}}
